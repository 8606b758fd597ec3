SPECIFICATION Spec
CONSTANTS
 Recs = {"r1"}
 Flushers = {"f1", "f2"}
 Stoppers = {"s1"}
 Serial = TRUE
 Guard = TRUE
 Ticks = 1
INVARIANTS Good NoDeadlock
CHECK_DEADLOCK FALSE

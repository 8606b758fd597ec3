SPECIFICATION Spec
CONSTANTS
 Recs = {"r1", "r2"}
 Flushers = {"f1", "f2"}
 Stoppers = {"s1", "s2"}
 Serial = TRUE
 Guard = TRUE
 Ticks = 1
INVARIANTS Good NoDeadlock
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Exps = {"a", "b", "c"}
 Stops = {"s", "t"}
 Recheck = TRUE
 Owned = TRUE
 Once = TRUE
 Tries = 2
INVARIANT Good
PROPERTY Over
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Exps = {"a", "b"}
 Stops = {"s", "t"}
 Recheck = TRUE
 Owned = TRUE
 Once = TRUE
 Tries = 1
INVARIANT Good
PROPERTY Over
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2, 3}
 Locked = TRUE
 Trust = FALSE
INVARIANTS Inv NoStuck
CHECK_DEADLOCK FALSE

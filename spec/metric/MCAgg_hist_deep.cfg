SPECIFICATION ISpec
CONSTANTS
 Kind = "hist"
 Meas = {"1", "2"}
 Colls = {"1", "3"}
INVARIANTS Good Accounted
CHECK_DEADLOCK FALSE

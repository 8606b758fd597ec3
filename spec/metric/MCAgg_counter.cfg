SPECIFICATION ISpec
CONSTANTS
 Kind = "counter"
 Meas = {"1", "2"}
 Colls = {"2"}
INVARIANTS Good Accounted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Adders = {1, 2, 3}
 Senders = {11, 12, 13}
 Locked = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Clear = TRUE
 Locks = TRUE
 Request = TRUE
INVARIANT Good
PROPERTY ChildDone
CHECK_DEADLOCK FALSE

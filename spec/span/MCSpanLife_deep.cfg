SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- SInit
 Ops <- MOps
 Apply <- SApply
 Depth = 7
 Emit = FALSE
VIEW GView
INVARIANT Inv
PROPERTY Trans
CHECK_DEADLOCK FALSE

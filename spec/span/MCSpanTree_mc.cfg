SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- SInit
 Ops <- MOps
 Apply <- SApply
 Depth = 4
 Emit = FALSE
VIEW GView
INVARIANT Inv
CHECK_DEADLOCK FALSE

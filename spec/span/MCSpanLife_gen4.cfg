SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- SInit
 Ops <- MOps
 Apply <- SApply
 Depth = 4
 Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- MInit
 Ops <- MOps
 Apply <- MApply
 Depth = 6
 Emit = FALSE
INVARIANT Inv
VIEW GView
CHECK_DEADLOCK FALSE

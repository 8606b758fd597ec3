SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- MInit
 Ops <- MOps
 Apply <- MApply
 Depth = 8
 Emit = FALSE
INVARIANT Inv
VIEW GView
CHECK_DEADLOCK FALSE

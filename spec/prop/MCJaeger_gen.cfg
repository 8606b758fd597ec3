SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- MInit
 Ops <- MOps
 Apply <- MApply
 Depth = 1
 Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

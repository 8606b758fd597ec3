SPECIFICATION GSpec
CONSTANTS
 Cfgs <- MCfgs
 Init0 <- MInit
 Ops <- MOps
 Apply <- MApply
 MaxParts = 3
 Depth = 6
 Emit = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE

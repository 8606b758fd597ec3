SPECIFICATION MCFair
CONSTANTS
  Items = {i1, i2}
  Flushes = {f1}
  Shuts = {s1}
  Cfgs <- C_live
INVARIANTS QueueBound BatchBound NoDuplicate Conserved UnsampledOut ShutPromise
PROPERTIES MCAbs DropOnlyFull ClosedQuiet Terminates
CHECK_DEADLOCK FALSE

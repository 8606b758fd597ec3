SPECIFICATION MCSpec
CONSTANTS
  Items = {i1, i2, i3}
  Flushes = {f1, f2}
  Shuts = {s1}
  Cfgs <- C_deep
INVARIANTS QueueBound BatchBound NoDuplicate Conserved UnsampledOut ShutPromise
PROPERTIES MCAbs DropOnlyFull ClosedQuiet 
CHECK_DEADLOCK FALSE

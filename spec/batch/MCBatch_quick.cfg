SPECIFICATION MCSpec
CONSTANTS
  Items = {i1, i2}
  Flushes = {f1}
  Shuts = {s1}
  Cfgs <- C_quick
INVARIANTS QueueBound BatchBound NoDuplicate Conserved UnsampledOut ShutPromise
PROPERTIES MCAbs DropOnlyFull ClosedQuiet 
CHECK_DEADLOCK FALSE

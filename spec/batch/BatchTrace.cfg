SPECIFICATION TSpec
CONSTANTS
  Items <- TItems
  Flushes <- TFlushes
  Shuts <- TShuts
INVARIANTS QueueBound BatchBound NoDuplicate Conserved UnsampledOut ShutPromise
CONSTRAINT Reg
POSTCONDITION Report
CHECK_DEADLOCK FALSE

SPECIFICATION TSpec
CONSTANTS
 Calls <- TCalls
 Procs <- TProcs
INVARIANTS ToldOnlyEnded EndComplete WinnerTold Kept
CONSTRAINT Reg
POSTCONDITION Report
CHECK_DEADLOCK FALSE

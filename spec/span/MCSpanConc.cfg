SPECIFICATION MSpec
CONSTANTS
 Calls = {c1, c2, c3}
 Procs = {p1, p2}
INVARIANTS ToldOnlyEnded EndComplete WinnerTold Kept
PROPERTIES Frozen OneWinner
CHECK_DEADLOCK FALSE

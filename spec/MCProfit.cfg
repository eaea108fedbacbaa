SPECIFICATION MSpec
CONSTANTS
  Forms <- F1
  Jobs <- J3
  Starts <- S2
  Points <- P0s
  Ints <- I1
  Grid <- G0
  Depth = 2
INVARIANTS CutsKeepBetter BestIsAttained WorstIsWorst NeverStuck Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Forms <- F1
  Jobs <- J3
  Starts <- S2
  Points <- P1t
  Ints <- I1
  Grid <- G1
  Depth = 2
INVARIANTS CutsKeepBetter BestIsAttained WorstIsWorst NeverStuck Emit
CHECK_DEADLOCK FALSE

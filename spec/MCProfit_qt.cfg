SPECIFICATION MSpec
CONSTANTS
  Forms <- F2
  Jobs <- J3
  Starts <- S2
  Points <- P2s
  Ints <- LogI0
  Grid <- LogI
  Depth = 2
INVARIANTS CutsKeepBetter BestIsAttained WorstIsWorst NeverStuck Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Form = "matrix"
  Costs <- T2
  Times <- T1
  MaxEdges = 1
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

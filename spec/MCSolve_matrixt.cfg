SPECIFICATION MSpec
CONSTANTS
  Form = "matrix"
  Costs <- T2
  Times <- T3
  MaxEdges = 1
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Form = "ratio"
  Costs <- CRt
  Times <- T3
  MaxEdges = 4
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Form = "filter"
  Costs <- CRt
  Times <- T3
  MaxEdges = 1
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

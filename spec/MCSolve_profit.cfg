SPECIFICATION MSpec
CONSTANTS
  Form = "profit"
  Costs <- CP
  Times <- T3
  MaxEdges = 1
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

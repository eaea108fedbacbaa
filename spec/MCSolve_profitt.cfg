SPECIFICATION MSpec
CONSTANTS
  Form = "profit"
  Costs <- CPt
  Times <- CPt
  MaxEdges = 1
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

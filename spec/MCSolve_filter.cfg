SPECIFICATION MSpec
CONSTANTS
  Form = "filter"
  Costs <- CR
  Times <- T2
  MaxEdges = 1
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

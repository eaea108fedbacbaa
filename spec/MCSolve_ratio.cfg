SPECIFICATION MSpec
CONSTANTS
  Form = "ratio"
  Costs <- CR
  Times <- T2
  MaxEdges = 3
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Form = "scale"
  Costs <- CS
  Times <- T1
  MaxEdges = 4
INVARIANTS NothingBetterLost BestIsAttained NeverStuck Emit
CHECK_DEADLOCK FALSE

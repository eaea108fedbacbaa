SPECIFICATION MSpec
CONSTANTS
  Form = "ratio"
  Places <- P3
  MaxN = 3
  Costs <- Cs3
  Slopes <- SlopesRatio
  Points <- Pts1
  Depth = 3
INVARIANTS CutsAreRight NeverStuck BestAttained Emit
CHECK_DEADLOCK FALSE

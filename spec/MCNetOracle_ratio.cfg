SPECIFICATION MSpec
CONSTANTS
  Form = "ratio"
  Places <- P3
  MaxN = 3
  Costs <- Cs
  Slopes <- SlopesRatio
  Points <- Pts1
  Depth = 2
INVARIANTS CutsAreRight NeverStuck BestAttained Emit
CHECK_DEADLOCK FALSE

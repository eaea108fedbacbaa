SPECIFICATION MSpec
CONSTANTS
  Form = "plain"
  Places <- P3
  MaxN = 3
  Costs <- Cs
  Slopes <- SlopesAny
  Points <- Pts1
  Depth = 3
INVARIANTS CutsAreRight NeverStuck BestAttained Emit
CHECK_DEADLOCK FALSE

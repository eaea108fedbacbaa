SPECIFICATION MSpec
CONSTANTS
  Form = "scale"
  Places <- P3
  MaxN = 3
  Costs <- Cs
  Slopes <- SlopesOne
  Points <- Pts2
  Depth = 2
INVARIANTS CutsAreRight NeverStuck BestAttained Emit
CHECK_DEADLOCK FALSE

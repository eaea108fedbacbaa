SPECIFICATION MSpec
CONSTANTS
  Form = "plain"
  Places <- P2
  MaxN = 2
  Costs <- Cs
  Slopes <- SlopesAny
  Points <- PtsP
  Depth = 3
INVARIANTS CutsAreRight NeverStuck BestAttained Emit
CHECK_DEADLOCK FALSE

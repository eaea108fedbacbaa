SPECIFICATION MSpec
CONSTANTS
  Specs <- S3
  Bests <- B1
  Points <- P2
  Grid <- G2
  Depth = 2
INVARIANTS ImprovesAtDesigns CutsKeepDesigns CutIsViolatedHere FarSideWhenTwoSided SameFromAnyRotation NeverStuck Emit
CHECK_DEADLOCK FALSE

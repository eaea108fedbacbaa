CONSTANTS
  Depth = 2
  Menu <- SinglesAndPairs
  Dirs <- TwoDirs
SPECIFICATION MSpec
INVARIANTS Properties OneVerdict Emit
VIEW MView
CHECK_DEADLOCK FALSE

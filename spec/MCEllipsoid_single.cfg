CONSTANTS
  Depth = 2
  Menu <- Single
  Dirs <- FourDirs
SPECIFICATION MSpec
INVARIANTS Properties OneVerdict Emit
VIEW MView
CHECK_DEADLOCK FALSE

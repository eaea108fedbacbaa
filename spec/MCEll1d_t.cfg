CONSTANTS
  Depth = 3
SPECIFICATION MSpec
INVARIANTS Properties OneVerdict Emit
VIEW MView
CHECK_DEADLOCK FALSE

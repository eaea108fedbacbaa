SPECIFICATION MSpec
CONSTANTS
  Depth = 2
  Kind = "mono"
  Sparse = 2
INVARIANTS LogScale Emit
PROPERTIES Meaning
CHECK_DEADLOCK FALSE

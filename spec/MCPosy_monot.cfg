SPECIFICATION MSpec
CONSTANTS
  Depth = 3
  Kind = "mono"
  Sparse = 5
INVARIANTS LogScale Emit
PROPERTIES Meaning
CHECK_DEADLOCK FALSE

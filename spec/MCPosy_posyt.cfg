SPECIFICATION MSpec
CONSTANTS
  Depth = 3
  Kind = "posy"
  Sparse = 6
INVARIANTS LogScale Emit
PROPERTIES Meaning
CHECK_DEADLOCK FALSE

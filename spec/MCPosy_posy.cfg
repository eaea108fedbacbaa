SPECIFICATION MSpec
CONSTANTS
  Depth = 2
  Kind = "posy"
  Sparse = 2
INVARIANTS LogScale Emit
PROPERTIES Meaning
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANTS
  Multi = FALSE
  Directed = TRUE
  Grows = FALSE
  Copies = FALSE
  Depth = 6
  Verts = 2
  Tag = "simple-directed"
INVARIANTS Sound Handshake Emit
PROPERTIES Independent Kept
CHECK_DEADLOCK FALSE

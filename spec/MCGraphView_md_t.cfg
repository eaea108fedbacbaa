SPECIFICATION MSpec
CONSTANTS
  Multi = TRUE
  Directed = TRUE
  Grows = TRUE
  Copies = TRUE
  Depth = 5
  Verts = 2
  Tag = "multi-directed"
INVARIANTS Sound Handshake Emit
PROPERTIES Independent Kept
CHECK_DEADLOCK FALSE

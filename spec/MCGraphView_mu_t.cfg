SPECIFICATION MSpec
CONSTANTS
  Multi = TRUE
  Directed = FALSE
  Grows = TRUE
  Copies = TRUE
  Depth = 5
  Verts = 2
  Tag = "multi-undirected"
INVARIANTS Sound Handshake Emit
PROPERTIES Independent Kept
CHECK_DEADLOCK FALSE

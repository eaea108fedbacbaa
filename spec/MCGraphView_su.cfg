SPECIFICATION MSpec
CONSTANTS
  Multi = FALSE
  Directed = FALSE
  Grows = FALSE
  Copies = FALSE
  Depth = 5
  Verts = 2
  Tag = "simple-undirected"
INVARIANTS Sound Handshake Emit
PROPERTIES Independent Kept
CHECK_DEADLOCK FALSE

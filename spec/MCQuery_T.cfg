SPECIFICATION Spec
CONSTANTS MaxLen = 3
  Kept = 3
  Depth = 10
INVARIANTS Committed Paged Tiled Deeper
PROPERTIES Quiet
CHECK_DEADLOCK FALSE

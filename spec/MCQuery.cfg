SPECIFICATION Spec
CONSTANTS MaxLen = 2
  Kept = 2
  Depth = 10
INVARIANTS Committed Paged Tiled Deeper
PROPERTIES Quiet
CHECK_DEADLOCK FALSE

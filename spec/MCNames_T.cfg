SPECIFICATION Spec
CONSTANTS
  Accs = {"a", "b", "c", "d"}
INVARIANTS Unique Inverse
CHECK_DEADLOCK FALSE

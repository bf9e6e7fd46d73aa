SPECIFICATION Spec
CONSTANTS
  Accs = {"a", "b", "c"}
INVARIANTS Unique Inverse
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Nodes = {"n1","n2"}
  MaxHeight = 2
  MaxTxs = 1
INVARIANTS Agree Lawful
PROPERTIES Atomic Apart
CHECK_DEADLOCK FALSE

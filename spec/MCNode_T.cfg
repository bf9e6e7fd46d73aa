SPECIFICATION Spec
CONSTANTS Nodes = {"n1","n2"}
  MaxHeight = 1
  MaxTxs = 2
INVARIANTS Agree Lawful
PROPERTIES Atomic Apart
CHECK_DEADLOCK FALSE

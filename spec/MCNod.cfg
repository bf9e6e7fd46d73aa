SPECIFICATION Spec
CONSTANTS
  Accs = {"a", "b", "c"}
  Keys = {"k1", "k2"}
  Movers = {"a"}
  MaxTop = 1
  MaxLucky = 1
  JailAfter = 1
  UnjailAfter = 1
  Evidence = FALSE
INVARIANTS OneKey Attributed QueueOk Unbanned
CHECK_DEADLOCK FALSE

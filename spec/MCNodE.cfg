SPECIFICATION Spec
CONSTANTS
  Accs = {"a", "b"}
  Keys = {"k1", "k2"}
  Movers = {"a"}
  MaxTop = 1
  MaxLucky = 1
  JailAfter = 2
  UnjailAfter = 2
  Evidence = TRUE
INVARIANTS OneKey Attributed QueueOk Unbanned
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxTime = 2 MaxTasks = 3 Hooks = {"a", "b"}
INVARIANTS Sorted AtMostOnce NeverEarly NotLost RunOrQueued NoneLeft
PROPERTY NoZombie
CHECK_DEADLOCK FALSE

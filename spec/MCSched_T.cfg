SPECIFICATION Spec
CONSTANTS MaxTime = 2 MaxTasks = 4 Hooks = {"a"}
INVARIANTS Sorted AtMostOnce NeverEarly NotLost RunOrQueued NoneLeft
PROPERTY NoZombie
CHECK_DEADLOCK FALSE

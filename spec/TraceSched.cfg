SPECIFICATION Spec
INVARIANTS Accepted Sorted AtMostOnce NeverEarly NotLost RunOrQueued
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Accepted
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

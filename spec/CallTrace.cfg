SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Accepted Stuck

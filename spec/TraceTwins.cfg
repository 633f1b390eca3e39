SPECIFICATION Spec
INVARIANTS Accepted Reached
CHECK_DEADLOCK FALSE

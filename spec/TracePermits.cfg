SPECIFICATION Spec
INVARIANTS Accepted Reached
CHECK_DEADLOCK FALSE
CONSTANT Max = 2147483647

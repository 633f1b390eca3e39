SPECIFICATION Spec
INVARIANTS Accepted Reached
CHECK_DEADLOCK FALSE
CONSTANT MaxId = 2147483647

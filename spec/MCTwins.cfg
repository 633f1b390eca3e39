SPECIFICATION Spec
INVARIANTS Consistent Matters Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Exactly Commute Emitted
CHECK_DEADLOCK FALSE

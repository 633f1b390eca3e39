SPECIFICATION Spec
INVARIANTS IsQueue Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Reports Emitted
CHECK_DEADLOCK FALSE

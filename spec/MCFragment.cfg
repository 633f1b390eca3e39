SPECIFICATION Spec
INVARIANTS FragInv Emitted
CHECK_DEADLOCK FALSE

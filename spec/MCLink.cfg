SPECIFICATION Spec
INVARIANTS LinkInv Emitted
CHECK_DEADLOCK FALSE

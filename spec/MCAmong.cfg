SPECIFICATION Spec
CONSTANTS MaxId = 7 Max = 5
INVARIANTS Independent Emitted
CHECK_DEADLOCK FALSE

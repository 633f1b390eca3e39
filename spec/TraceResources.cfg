SPECIFICATION Spec
CONSTANTS Most = 2147483647 Fixed = 4096 PerPiece = 256 PerByte = 4
INVARIANTS Accepted Reached
CHECK_DEADLOCK FALSE

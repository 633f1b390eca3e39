SPECIFICATION Spec
CONSTANTS Most = 20 Fixed = 2 PerPiece = 3 PerByte = 2 Size = 6
INVARIANTS Bounded
CHECK_DEADLOCK FALSE

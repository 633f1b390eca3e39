SPECIFICATION Spec
INVARIANTS Accounted Serial Granted Emitted
CHECK_DEADLOCK FALSE
CONSTANT Max = 7

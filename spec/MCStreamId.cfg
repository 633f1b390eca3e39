SPECIFICATION Spec
INVARIANTS TypeOK Valid BlocksAgree Exclusive Emitted
CHECK_DEADLOCK FALSE
CONSTANT MaxId = 7

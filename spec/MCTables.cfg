SPECIFICATION Spec
INVARIANTS MimeBijection Codes TypesBijective FlagsAlone Versions
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxId = 7 Callers <- MCCallers Slack = 0 Deaf <- MCDeaf
INVARIANTS SessionInv Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxId = 7 Callers <- MCCallers Slack = 0 Deaf <- MCDeaf
PROPERTY Delivers
CHECK_DEADLOCK FALSE

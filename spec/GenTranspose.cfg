SPECIFICATION Spec
CONSTANTS MaxOps = 8
CHECK_DEADLOCK FALSE

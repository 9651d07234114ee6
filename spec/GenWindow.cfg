SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
CHECK_DEADLOCK FALSE

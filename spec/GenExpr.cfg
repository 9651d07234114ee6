SPECIFICATION Spec
CONSTANTS
  MaxOps = 28
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxOps = 12
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxOps = 10
CHECK_DEADLOCK FALSE

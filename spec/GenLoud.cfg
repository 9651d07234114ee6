SPECIFICATION Spec
CONSTANTS
  MaxOps = 22
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Exhaustive = FALSE
  MaxOps = 8
  MaxSched = 90
CHECK_DEADLOCK FALSE

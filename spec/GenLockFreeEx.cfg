SPECIFICATION Spec
CONSTANTS
  Exhaustive = TRUE
  MaxOps = 8
  MaxSched = 90
CHECK_DEADLOCK FALSE

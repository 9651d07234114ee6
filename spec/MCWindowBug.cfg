SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Values = {0, 1, 3}
  Forget = TRUE
INVARIANTS Defined
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Values = {0, 1, 3}
  Forget = FALSE
INVARIANTS Defined
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxRoots = 4
  WrongList = FALSE
INVARIANTS Balanced Progress Complete
CHECK_DEADLOCK FALSE

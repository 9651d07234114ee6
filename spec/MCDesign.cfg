SPECIFICATION Spec
CONSTANTS
  MaxRoots = 3
  WrongList = FALSE
INVARIANTS Balanced Progress Complete
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxRoots = 2
  WrongList = TRUE
INVARIANTS Balanced Complete
CHECK_DEADLOCK FALSE

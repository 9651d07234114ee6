SPECIFICATION Spec
CONSTANTS
  Ns = {1,2,3,4}
  MaxW = 5
  MaxLen = 9
  Vals = {0,1}
INVARIANTS Agree CursorsInside
CHECK_DEADLOCK FALSE

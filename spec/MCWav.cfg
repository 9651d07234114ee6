SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  Caps = {2, 3, 5, 6, 8, 1000}
  Chans = {1, 2, 3}
INVARIANTS Prefix Fits NotInvented
PROPERTY Step
CHECK_DEADLOCK FALSE

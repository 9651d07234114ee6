SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
INVARIANTS Defined Gated
CHECK_DEADLOCK FALSE

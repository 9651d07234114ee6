SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
INVARIANTS Defined Gated
CHECK_DEADLOCK FALSE

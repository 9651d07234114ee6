SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Base <- StaleBase
INVARIANTS Defined Gated
CHECK_DEADLOCK FALSE

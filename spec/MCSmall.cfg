SPECIFICATION Spec
CONSTANTS
  Cap = 2
  MaxLen = 3
  Range = 7
INVARIANTS Refines NoBlockLost
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Cap = 2
  MaxLen = 4
  Range = 12
INVARIANTS Refines NoBlockLost
CHECK_DEADLOCK FALSE

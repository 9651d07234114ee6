SPECIFICATION Spec
CONSTANTS
  MaxTurns = 3
  Mirror = FALSE
INVARIANTS There OnCircle
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxPart = 2
INVARIANTS Ends Stops Complete NoFalseAlarm
CHECK_DEADLOCK FALSE

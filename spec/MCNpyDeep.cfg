SPECIFICATION Spec
CONSTANTS
  MaxLen = 6
  MaxPart = 5
INVARIANTS Ends Stops Complete NoFalseAlarm
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Small = 14
  Big = 200
  Kinds = {0,1,2}
CHECK_DEADLOCK FALSE

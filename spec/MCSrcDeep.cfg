SPECIFICATION Spec
CONSTANTS
  MaxUp = 7
  MaxDown = 7
  Depth = 4
  MaxBlock = 7
  MaxOut = 24
INVARIANTS OneStream Supplied NoStall NoDrift
CHECK_DEADLOCK FALSE

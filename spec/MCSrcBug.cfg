SPECIFICATION Spec
CONSTANTS
  RoomFor <- FlooredRoom
  MaxUp = 4
  MaxDown = 5
  Depth = 3
  MaxBlock = 4
  MaxOut = 7
INVARIANTS OneStream Supplied NoStall NoDrift
CHECK_DEADLOCK FALSE

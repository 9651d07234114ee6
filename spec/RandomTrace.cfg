SPECIFICATION TSpec
CONSTANTS
  LaneBytes = 4
  Lanes = 4
  Rot = 3
  Mul <- KMul
  Add <- KAdd
  InvMul <- KInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  LaneBytes = 4
  Lanes = 4
  Rot = 3
  Mul <- KMul
  Add <- KAdd
  InvMul <- KInv
  MaxOps = 24
CHECK_DEADLOCK FALSE

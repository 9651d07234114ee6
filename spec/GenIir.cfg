SPECIFICATION Spec
CONSTANTS
  Variants = {0,1,2,3,4,5}
  Counts = {1,2,3,4,5,6,7,8,9,12,15,16}
  BlockLens = {0,1,2,3,4,5,6,7,8,9,10,11,13,14,15,16,17,18,19,23,24}
  Modes = {0,1,2,3,4}
  MaxOps = 12
  Kinds <- AllKinds
CHECK_DEADLOCK FALSE

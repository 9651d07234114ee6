SPECIFICATION Spec
CONSTANTS
  Variants = {0,1,2,3,4,5,6,7,8,9,10,11}
  TapCounts = {1,2,3,4,5,6,7,8,9,12,15,16,17,23,31,32,33,40,63,64,65}
  BlockLens = {0,1,2,3,4,5,6,7,8,9,11,13,15,16,17,19,23,31,32,33,37,63,64,65,67,100,130}
  Modes = {0,1,2,3,4}
  MaxOps = 14
  Kinds <- AllKinds
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  Variants = {20,21,22,23}
  TapCounts = {1,2,3,4,5,6,7,8,9,12,15,16,17,23,31,32,33,40,63,64,65,100}
  BlockLens = {0,1,2,3,4,5,6,7,8,9,11,12,13,15,16,17,19,23,24,31,32,33,37,48,63,64,65,67,100,130,200}
  Modes = {0,1,2,3,4}
  MaxOps = 14
  Kinds <- AllKinds
CHECK_DEADLOCK FALSE

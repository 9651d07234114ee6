SPECIFICATION Spec
CONSTANTS
  Variants = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}
  Pars = {0,1,2,3,4,5,6,7,8}
  BlockLens = {0,1,2,3,4,5,6,7,8,9,11,13,15,16,17,19,23,31,32,33,40,64}
  Modes = {0,1,2,3,4,5,6,7}
  MaxOps = 12
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Variants = {0, 1}
 MaxOps = 8
CHECK_DEADLOCK FALSE

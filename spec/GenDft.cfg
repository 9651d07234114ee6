SPECIFICATION Spec
CONSTANTS Variants = {0, 1}
 MaxOps = 7
 Family = "c"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Variants = {0, 1}
 MaxOps = 7
 Family = "real"
CHECK_DEADLOCK FALSE

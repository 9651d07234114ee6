SPECIFICATION Spec
CONSTANTS Variants = {0, 1}
 MaxOps = 7
 Family = "md"
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Lo = 1
 Hi = 72
 Mul = 1
 Kind = "c"
 Variants = {0, 1}
 Flags = {0}
CHECK_DEADLOCK FALSE

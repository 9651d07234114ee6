SPECIFICATION Spec
CONSTANTS Lo = 73
 Hi = 300
 Mul = 1
 Kind = "c"
 Variants = {0, 1}
 Flags = {0}
CHECK_DEADLOCK FALSE

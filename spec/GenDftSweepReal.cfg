SPECIFICATION Spec
CONSTANTS Lo = 1
 Hi = 40
 Mul = 2
 Kind = "r"
 Variants = {0, 1}
 Flags = {0, 1}
CHECK_DEADLOCK FALSE

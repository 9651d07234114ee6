SPECIFICATION Spec
CONSTANTS Lo = 41
 Hi = 130
 Mul = 2
 Kind = "r"
 Variants = {0, 1}
 Flags = {0, 1}
CHECK_DEADLOCK FALSE

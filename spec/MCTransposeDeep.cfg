SPECIFICATION Spec
CONSTANTS MaxSide = 22
INVARIANTS Result Permuted Involution
PROPERTY Ends
CHECK_DEADLOCK FALSE

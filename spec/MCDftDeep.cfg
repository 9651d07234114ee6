SPECIFICATION Spec
CONSTANTS Values = {0, 1, 2}
 MaxPow = 1
INVARIANTS RulesExact ImpulseExact
CHECK_DEADLOCK FALSE

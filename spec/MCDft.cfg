SPECIFICATION Spec
CONSTANTS Values = {0, 1}
 MaxPow = 1
INVARIANTS RulesExact ImpulseExact
CHECK_DEADLOCK FALSE

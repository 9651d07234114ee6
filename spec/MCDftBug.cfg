SPECIFICATION Spec
CONSTANTS Values = {0, 1}
 MaxPow = 1
 Rev <- BadRev
INVARIANTS RulesExact ImpulseExact
CHECK_DEADLOCK FALSE

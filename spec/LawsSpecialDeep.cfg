SPECIFICATION SpecAll
CONSTANTS MaxN = 7
 MaxEs = 3
CHECK_DEADLOCK FALSE
INVARIANTS NanAbsorbs InfRules DivByZero

SPECIFICATION SpecAll
CONSTANTS MaxN = 5
 MaxEs = 2
CHECK_DEADLOCK FALSE
INVARIANTS SumBracket AddCommutes AddZero AddMirror SubIsAddNeg SubSelf AddGrows RelAdd

SPECIFICATION SpecAll
CONSTANTS MaxN = 6
 MaxEs = 3
CHECK_DEADLOCK FALSE
INVARIANTS SumBracket AddCommutes AddZero AddMirror SubIsAddNeg SubSelf AddGrows RelAdd

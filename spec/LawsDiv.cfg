SPECIFICATION SpecAll
CONSTANTS MaxN = 5
 MaxEs = 2
CHECK_DEADLOCK FALSE
INVARIANTS QuotientBracket DivOne DivSelf DivMirror InvOfPower RelDiv

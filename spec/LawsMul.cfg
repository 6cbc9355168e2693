SPECIFICATION SpecAll
CONSTANTS MaxN = 5
 MaxEs = 2
CHECK_DEADLOCK FALSE
INVARIANTS ProductBracket MulCommutes MulOne MulMirror MulZero MulMono RelMul

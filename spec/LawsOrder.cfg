SPECIFICATION SpecAll
CONSTANTS MaxN = 5
 MaxEs = 2
CHECK_DEADLOCK FALSE
INVARIANTS OrderIsInt Trichotomy NanUnordered NextPrev RelMin

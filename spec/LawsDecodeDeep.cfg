SPECIFICATION SpecAll
CONSTANTS MaxN = 8
 MaxEs = 3
CHECK_DEADLOCK FALSE
INVARIANTS Closure RoundTrip OneOne PartsJoin

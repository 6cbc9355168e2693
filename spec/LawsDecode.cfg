SPECIFICATION SpecAll
CONSTANTS MaxN = 6
 MaxEs = 3
CHECK_DEADLOCK FALSE
INVARIANTS Closure RoundTrip OneOne PartsJoin

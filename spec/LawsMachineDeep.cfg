SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxEs = 2
CHECK_DEADLOCK FALSE
INVARIANTS Closure RoundTrip NanAbsorbs

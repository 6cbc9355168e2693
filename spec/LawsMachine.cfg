SPECIFICATION Spec
CONSTANTS MaxN = 5
 MaxEs = 1
CHECK_DEADLOCK FALSE
INVARIANTS Closure RoundTrip NanAbsorbs

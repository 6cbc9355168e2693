SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RegsCanonical
CONSTRAINT Seen
POSTCONDITION Accepted

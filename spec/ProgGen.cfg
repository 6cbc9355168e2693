SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RegsCanonical
INVARIANT Emit
PROPERTY IsMachineStep

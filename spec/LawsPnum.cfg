SPECIFICATION Spec
CONSTANT Deep = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Partition NegIsNeg InvIsInv Involution AddCovers MulCovers AddReaches MulReaches Commute SubIsNeg MulSigns NotIsRest NegPoints InvPoints

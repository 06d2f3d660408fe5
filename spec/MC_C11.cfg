SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS TermsNonNegative AtTruth PenaltyRange PenaltySide Ignored ResidBounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS TermsNonNegative AtTruth PenaltyRange PenaltySide Ignored ResidBounded
CHECK_DEADLOCK FALSE

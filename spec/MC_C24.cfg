SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS ZeroIff Positive Adds Roundtrip SlopeOk
CHECK_DEADLOCK FALSE

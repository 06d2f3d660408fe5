SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS ZeroIff Positive Adds Roundtrip SlopeOk
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Values FinalCounts PeakCounts EarlyIgnored Monotone MinMassNeverStricter
CHECK_DEADLOCK FALSE

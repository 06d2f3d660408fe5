SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Values FinalCounts PeakCounts EarlyIgnored Monotone MinMassNeverStricter
CHECK_DEADLOCK FALSE

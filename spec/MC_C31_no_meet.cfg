SPECIFICATION Spec
CONSTANTS MaxR = 2 N = 3 Quota = 1 Meets = FALSE Overlap = FALSE
INVARIANTS EachOnce Samples Disjoint NeverUnwritten
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS WN = 3 MN = 4 Stride = 2
CONSTANT Values = {0, 1, 2, 3}
INVARIANTS RecordFinite BestOfVisited NothingVisited HonestFlag FirstIsStart WarmupHelps Functional OnlyFallback
PROPERTY Terminates
CHECK_DEADLOCK FALSE

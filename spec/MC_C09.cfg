SPECIFICATION Spec
CONSTANTS WN = 2 MN = 3 Stride = 2
CONSTANT Values = {0, 1, 2}
INVARIANTS RecordFinite BestOfVisited NothingVisited HonestFlag FirstIsStart WarmupHelps Functional OnlyFallback
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS IsHaloHistory CumIsTable PositiveMass PresentIsLargest AbsentIsOne
PROPERTIES Grows MassGrows
CHECK_DEADLOCK FALSE

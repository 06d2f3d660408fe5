SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS IsHaloHistory CumIsTable PositiveMass PresentIsLargest AbsentIsOne
PROPERTIES Grows MassGrows
CHECK_DEADLOCK FALSE

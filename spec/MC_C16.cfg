SPECIFICATION Spec
CONSTANT MaxGal = 2
INVARIANTS NeverStuck RowIsSingle AllDifferent OneEach
PROPERTY Terminates
CHECK_DEADLOCK FALSE

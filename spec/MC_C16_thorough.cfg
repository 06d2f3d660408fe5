SPECIFICATION Spec
CONSTANT MaxGal = 3
INVARIANTS NeverStuck RowIsSingle AllDifferent OneEach
PROPERTY Terminates
CHECK_DEADLOCK FALSE

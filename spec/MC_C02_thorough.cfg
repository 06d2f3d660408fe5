SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANTS RowsAreSingles Local
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS RowsAreSingles Local
VIEW view
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT NU = 24
CONSTANT MaxVaried = 2
INVARIANTS Inside Inverse Round Exact
PROPERTIES Rising Incremental
CHECK_DEADLOCK FALSE

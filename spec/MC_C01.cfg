SPECIFICATION Spec
INVARIANTS Floored NoBoost Linear Frozen
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Range BeforeIsOne Deepest Settled Symmetric
PROPERTIES Monotone PhaseOrder
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS InBounds NoRejuvBelowDrop Inverse
PROPERTIES OnlyOwn
VIEW view
CHECK_DEADLOCK FALSE

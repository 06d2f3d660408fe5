SPECIFICATION Spec
CONSTANTS N = 6 Losses = {1, 2} Design = "kept"
INVARIANTS BestVisited OneEach AtMost Functional
PROPERTY Terminates
CHECK_DEADLOCK FALSE

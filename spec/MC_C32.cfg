SPECIFICATION Spec
CONSTANTS N = 4 Losses = {1, 2, 3} Design = "kept"
INVARIANTS BestVisited OneEach AtMost Functional
PROPERTY Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS N = 4 Losses = {1, 2, 3} Design = "misfiled"
INVARIANTS BestVisited

CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT GiveUp = 2
CONSTANT MaxIters = {0, 1, 2, 3}
INVARIANTS AtMost AtLeastOne EarlyOnlyIfReached Best NeverNaN NeverWorse FlagMeansDescent Tries
PROPERTIES BestImproves Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT GiveUp = 2
CONSTANT MaxIters = {1, 4}
INVARIANTS AtMost AtLeastOne EarlyOnlyIfReached Best NeverNaN NeverWorse FlagMeansDescent Tries
PROPERTIES BestImproves Terminates
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT Ks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
INVARIANTS ValueAgrees Finite IsLimit CutNoticed WrongNoticed FlooredFlat Timing
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT NHalo = 1
INVARIANTS MixSumsToOne RowsSumToOne Certain Rows Scaled
CHECK_DEADLOCK FALSE

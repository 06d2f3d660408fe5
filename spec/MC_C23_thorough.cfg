SPECIFICATION Spec
CONSTANT NHalo = 2
INVARIANTS MixSumsToOne RowsSumToOne Certain Rows Scaled
CHECK_DEADLOCK FALSE

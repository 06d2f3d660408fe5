SPECIFICATION Spec
CONSTANTS MaxGal = 4
 NMet = 2
 NT = 3
INVARIANTS RowPerGalaxy BlocksConcatenate EmptyIsZero Conserved NonNegative
PROPERTY RowsNeverRewritten
CHECK_DEADLOCK FALSE

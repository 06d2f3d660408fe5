SPECIFICATION Spec
CONSTANT NStep = 40
INVARIANTS Between BeforeInfall Saturated Corner DelayBetween HalfAtDelay
PROPERTY NeverLess
CHECK_DEADLOCK FALSE

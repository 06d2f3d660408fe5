SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS NonNegative ConstantRate BeforeTable Bounded_
PROPERTY Past
CHECK_DEADLOCK FALSE

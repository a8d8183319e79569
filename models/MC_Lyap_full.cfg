SPECIFICATION Spec
INVARIANTS ZeroAtRest PositiveElsewhere RateBound SublevelKept
PROPERTY Converges
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE

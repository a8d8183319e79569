SPECIFICATION Spec
INVARIANTS RestIsKept PositionsOnlyShift StandingCarStays MeanVelocity Turning SpeedIsPositive
CHECK_DEADLOCK FALSE
CONSTANT Depth = 1

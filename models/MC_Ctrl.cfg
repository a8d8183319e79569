SPECIFICATION Spec
INVARIANTS PositionIsVelocity AffineInside ClampedOutside RowMajor
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Recursion Covers NoOverlap CentreInside
CHECK_DEADLOCK FALSE

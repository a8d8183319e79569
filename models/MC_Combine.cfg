SPECIFICATION Spec
INVARIANTS Pair Comp
CHECK_DEADLOCK FALSE

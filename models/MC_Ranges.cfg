SPECIFICATION Spec
INVARIANTS Ends Leaky Duality
CHECK_DEADLOCK FALSE

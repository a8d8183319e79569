SPECIFICATION Spec
INVARIANTS Restored NonEmpty Tight
CHECK_DEADLOCK FALSE

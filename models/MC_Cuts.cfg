SPECIFICATION Spec
INVARIANTS Valid Separable
CHECK_DEADLOCK FALSE

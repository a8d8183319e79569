SPECIFICATION Spec
INVARIANTS Strong Signs Others
CHECK_DEADLOCK FALSE

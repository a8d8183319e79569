SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS Same Relaxed
PROPERTY Shrinks
CHECK_DEADLOCK FALSE

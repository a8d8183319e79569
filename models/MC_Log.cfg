SPECIFICATION Spec
CONSTANT Steps = 4
INVARIANTS RootCounts Emit
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE

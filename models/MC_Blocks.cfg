SPECIFICATION Spec
INVARIANTS ProductOk LeakyAll AbsOk GradOk Compose
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Floor Sym Rest Solve
CHECK_DEADLOCK FALSE

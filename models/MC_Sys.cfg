SPECIFICATION Spec
INVARIANTS KeepsEquilibrium LawAtRest InsideLimits LoopEncodingExact
CHECK_DEADLOCK FALSE
CONSTANT Deep = FALSE

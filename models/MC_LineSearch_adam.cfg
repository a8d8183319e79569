SPECIFICATION Spec
CONSTANTS Steps = 2  Kind = "adam"
INVARIANTS AcceptedDecreases AlphaInSequence FewTrials OnRay NoGradNoMove GDDescent Emit
CHECK_DEADLOCK FALSE

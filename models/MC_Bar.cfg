CONSTANT Deep = FALSE
SPECIFICATION Spec
INVARIANTS StaysSafe SuperlevelKept DecayBound RestIsSafe
CHECK_DEADLOCK FALSE

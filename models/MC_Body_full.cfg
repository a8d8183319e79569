SPECIFICATION Spec
INVARIANTS PoleLengthKept WorkIsEnergy ForwardIsInBalance OnlyForwardIsInBalance PendulumPower
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE

SPECIFICATION TSpec
POSTCONDITION TAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  St0 <- S0
  Verdict <- V
  NextSt <- N

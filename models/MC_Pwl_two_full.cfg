SPECIFICATION Spec
CONSTANTS
 Amp = 2
 Two = TRUE
INVARIANTS AdmittedExactlyIfLyapunov ZeroPrice
CHECK_DEADLOCK FALSE

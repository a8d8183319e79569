SPECIFICATION Spec
CONSTANTS
 Amp = 1
 Two = TRUE
INVARIANTS AdmittedExactlyIfLyapunov ZeroPrice
CHECK_DEADLOCK FALSE

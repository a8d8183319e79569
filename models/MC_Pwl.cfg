SPECIFICATION Spec
CONSTANTS
 Amp = 1
 Two = FALSE
INVARIANTS AdmittedExactlyIfLyapunov ZeroPrice
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
 Amp = 4
 Two = FALSE
INVARIANTS AdmittedExactlyIfLyapunov ZeroPrice
CHECK_DEADLOCK FALSE

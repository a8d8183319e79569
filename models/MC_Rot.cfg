SPECIFICATION Spec
INVARIANTS Orthonormal Det1 DerivSkew RollBodyRate YawWorldRate
CHECK_DEADLOCK FALSE

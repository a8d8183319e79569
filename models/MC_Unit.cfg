SPECIFICATION Spec
INVARIANTS Exact Complete InRange BinaryTells
CHECK_DEADLOCK FALSE

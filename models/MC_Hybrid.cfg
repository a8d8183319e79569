SPECIFICATION Spec
INVARIANTS Sound Complete Simulated Stops
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS TimeAdvances PolynomialFlowExact LinearTaylor
CHECK_DEADLOCK FALSE

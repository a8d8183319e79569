SPECIFICATION Spec
CONSTANT MaxIt = 3
INVARIANTS SuccessIsCertified FailureUsesAllIterations NeverCertifiedBefore OneUpdateEach FrozenStay OnlyViolationsAdded Ends
PROPERTY PoolsOnlyGrow
CHECK_DEADLOCK FALSE

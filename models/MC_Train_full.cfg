SPECIFICATION Spec
CONSTANT MaxIt = 4
INVARIANTS SuccessIsCertified FailureUsesAllIterations NeverCertifiedBefore OneUpdateEach FrozenStay OnlyViolationsAdded Ends
PROPERTY PoolsOnlyGrow
CHECK_DEADLOCK FALSE

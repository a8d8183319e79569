SPECIFICATION Spec
CONSTANTS MaxIt = 3 Epochs = 2 Caps = {1,2,3}
INVARIANTS PoolIsRecent BestIsKept FailureUsesAllIterations EachEpochDrawsOnce
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE

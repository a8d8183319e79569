SPECIFICATION Spec
CONSTANTS MaxIt = 2 Epochs = 1 Caps = {2}
INVARIANTS PoolIsRecent BestIsKept FailureUsesAllIterations EachEpochDrawsOnce
PROPERTY NeverWorse
CHECK_DEADLOCK FALSE

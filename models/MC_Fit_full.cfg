SPECIFICATION Spec
CONSTANTS Amp = 6 N = 5 NTrain = 4 Bs = 2 Epochs = 3
INVARIANTS ProjectionLaws EpochsPartition UpdatesCounted
PROPERTY TrainingSetFixed
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Amp = 3 N = 4 NTrain = 3 Bs = 2 Epochs = 2
INVARIANTS ProjectionLaws EpochsPartition UpdatesCounted
PROPERTY TrainingSetFixed
CHECK_DEADLOCK FALSE

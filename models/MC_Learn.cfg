SPECIFICATION Spec
CONSTANTS
 MaxN = 3
 Freqs = {0,1,2,3}
INVARIANTS ProgramsRunWhenDue MovesByItsGradients DivergenceNonNegative CrossLeastAtTheTruth SigmoidSymmetric
CHECK_DEADLOCK FALSE

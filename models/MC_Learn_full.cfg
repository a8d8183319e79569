SPECIFICATION Spec
CONSTANTS
 MaxN = 5
 Freqs = {0,1,2,3,4}
INVARIANTS ProgramsRunWhenDue MovesByItsGradients DivergenceNonNegative CrossLeastAtTheTruth SigmoidSymmetric
CHECK_DEADLOCK FALSE

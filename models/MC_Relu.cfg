SPECIFICATION Spec
INVARIANTS PiecesCover PiecesAgree Ties GradientProduct
CHECK_DEADLOCK FALSE
CONSTANT Es <- EsSmall

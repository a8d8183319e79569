------------------------------- MODULE MC_Relu -------------------------------
(* All networks with one or two hidden layers over a small weight set: the *)
(* pieces cover the inputs, agree where they overlap and are the network;  *)
(* the layer-by-layer gradient product is the piece's gradient.            *)
EXTENDS ReluCore
CONSTANT Es
VARIABLES net, x
Ws == {<< -1, 1>>, <<0, 1>>, <<3, 2>>}
EsSmall == {<<1, 1>>}
EsFull == {<<0, 1>>, <<1, 1>>, << -1, 2>>}
Bs == {<<0, 1>>, <<1, 1>>, << -1, 2>>}
Slopes == {<<0, 1>>, <<1, 4>>}
Xs == {<< -1, 1>>, <<0, 1>>, <<1, 2>>}
Nets1 == {[W |-> <<<<<<a, b>>, <<b, c>>>>, <<<<a, c>>>>>>, b |-> <<<<d, e>>, <<e>>>>, c |-> s] :
            a \in Ws, b \in Ws, c \in Ws, d \in Bs, e \in Es, s \in Slopes}
Nets2 == {[W |-> <<<<<<a>>, <<b>>>>, <<<<a, b>>, <<c, a>>>>, <<<<c, b>>, <<a, a>>>>>>,
           b |-> <<<<d, e>>, <<d, d>>, <<e, d>>>>, c |-> s] :
            a \in Ws, b \in Ws, c \in Ws, d \in Bs, e \in Es, s \in Slopes}
Init == \/ net \in Nets1 /\ x \in {<<p, q>> : p \in Xs, q \in Xs}
        \/ net \in Nets2 /\ x \in {<<p>> : p \in Xs}
Next == UNCHANGED <<net, x>>
Spec == Init /\ [][Next]_<<net, x>>
Shapes == LET w == Widths(net) IN
  IF Len(w) = 1 THEN {<<f>> : f \in [1..w[1] -> BOOLEAN]}
  ELSE {<<f, g>> : f \in [1..w[1] -> BOOLEAN], g \in [1..w[2] -> BOOLEAN]}
Admitted == {p \in Shapes : Consistent(net, x, p)}
PiecesCover == Pattern(net, x) \in Admitted
PiecesAgree == \A p \in Admitted : PieceAt(net, p, x) = Out(net, x)
Ties == Cardinality(Admitted) = Pow2(NTies(net, x))
GradientProduct == \A p \in Admitted : GTimes(net, p, x) = MatVec(Gradient(net, p), x)
=============================================================================

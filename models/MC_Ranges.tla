------------------------------ MODULE MC_Ranges ------------------------------
(* Interval ends are bounds and are attained; a certificate never proves   *)
(* anything a grid point contradicts.                                      *)
EXTENDS CertCore
VARIABLES a, lo, up, c
V2 == {<< -1, 1>>, <<0, 1>>, <<3, 2>>}
Grid(l, u) == {l, u, RMul(<<1, 2>>, RAdd(l, u))}
Init == /\ a \in {<<p, q>> : p \in V2, q \in V2}
        /\ lo \in {<<p, q>> : p \in {<< -2, 1>>, <<1, 2>>}, q \in {<< -1, 1>>, <<0, 1>>}}
        /\ up \in {<<p, q>> : p \in {<<1, 2>>, <<2, 1>>}, q \in {<<0, 1>>, <<1, 1>>}}
        /\ c \in {<<0, 1>>, <<1, 4>>, <<2, 1>>, << -1, 2>>}
Next == UNCHANGED <<a, lo, up, c>>
Spec == Init /\ [][Next]_<<a, lo, up, c>>
Pts == {<<p, q>> : p \in Grid(lo[1], up[1]), q \in Grid(lo[2], up[2])}
Ends == /\ \A x \in Pts : RLe(RowLo(a, lo, up), Dot(a, x)) /\ RLe(Dot(a, x), RowUp(a, lo, up))
        /\ \E x \in Pts : Dot(a, x) = RowLo(a, lo, up)
        /\ \E x \in Pts : Dot(a, x) = RowUp(a, lo, up)
Leaky == LET E == LeakyEnds(c, lo[1], up[1]) IN
         \A x \in Grid(lo[1], up[1]) :
           RLe(SetMin(E), LeakyVal(c, x)) /\ RLe(LeakyVal(c, x), SetMax(E))
\* multipliers of the box sides prove the interval end (weak duality)
Mult == [k \in 1..4 |-> IF k <= 2 THEN RPos(a[k]) ELSE RPos(RNeg(a[k - 2]))]
Q == [n |-> 2, C |-> <<>>, d |-> <<>>, E |-> <<>>, f |-> <<>>, lo |-> lo, up |-> up]
Duality ==
  \A x \in Pts : Proves(Q, a, [kind |-> "opt", x |-> x, l |-> Mult]) =>
                   Dot(a, x) = RowUp(a, lo, up)
=============================================================================

----------------------------- MODULE MC_Combine -----------------------------
(* Composition laws of blocks, for every presence pattern of the parts.    *)
EXTENDS CombineCore
VARIABLES P, Q, sS, sB
Opt(v) == {<<>>, <<v>>}
Mx == <<<<R1>>, <<RInt(2)>>>>        \* 2 rows, 1 column
One == <<<< << -1, 1>> >>>>          \* 1 row, 1 column
Nil == [Ox |-> <<>>, Os |-> <<>>, Ob |-> <<>>, o |-> <<>>, Gx |-> <<Mx>>, Gs |-> <<>>,
        Gb |-> <<>>, h |-> <<<<R1, RInt(3)>>>>, Ex |-> <<>>, Es |-> <<>>, Eb |-> <<>>,
        e |-> <<>>, xlo |-> <<>>, xup |-> <<>>, slo |-> <<>>, sup |-> <<>>, blo |-> <<>>, bup |-> <<>>]
Ps == {[Nil EXCEPT !.Os = a, !.Ob = b, !.Ox = c, !.o = d, !.Gs = g, !.Gb = f] :
         a, b, c \in Opt(One), d \in Opt(<<R1>>), g, f \in Opt(Mx)}
Qs == {[Nil EXCEPT !.Es = a, !.Eb = b, !.Ex = c, !.e = <<<<R1>>>>, !.blo = d, !.slo = d] :
         a, b \in {<<One>>}, c \in Opt(One), d \in Opt(<<<<R0>>>>)}
Init == P \in Ps /\ Q \in Qs /\ sS \in BOOLEAN /\ sB \in BOOLEAN
Next == UNCHANGED <<P, Q, sS, sB>>
Spec == Init /\ [][Next]_<<P, Q, sS, sB>>
Ok == (sS => NSlack(P) = NSlack(Q)) /\ (sB => NBinary(P) = NBinary(Q))
R == Concat(P, Q, sS, sB, TRUE)
x == <<RInt(3)>>
Vec(n, c) == [k \in 1..n |-> <<k, c>>]
s1 == Vec(NSlack(P), 1)  b1 == Vec(NBinary(P), 1)
s2 == IF sS THEN s1 ELSE [k \in 1..NSlack(Q) |-> RInt(7)]
b2 == IF sB THEN b1 ELSE [k \in 1..NBinary(Q) |-> RInt(9)]
s == IF sS THEN s1 ELSE s1 \o s2
b == IF sB THEN b1 ELSE b1 \o b2
\* stacking is the pair of the two blocks
Pair == Ok =>
  /\ IneqAt(R, x, s, b) = IneqAt(P, x, s1, b1) \o IneqAt(Q, x, s2, b2)
  /\ EqAt(R, x, s, b) = EqAt(P, x, s1, b1) \o EqAt(Q, x, s2, b2)
  /\ OutAt(R, x, s, b) = OutAt(P, x, s1, b1) \o OutAt(Q, x, s2, b2)
\* substitution is composition
Comp ==
  LET A == <<<<RInt(2), R1>>>>
      a == <<RInt(-1)>>
      z == <<R1, RInt(3)>>
      y == VAdd(MatVec(A, z), a)
      T == Transform(P, A, a)
  IN /\ IneqAt(T, z, s1, b1) = IneqAt(P, y, s1, b1)
     /\ OutAt(T, z, s1, b1) = OutAt(P, y, s1, b1)
     /\ NOut(T) = NOut(P)
=============================================================================

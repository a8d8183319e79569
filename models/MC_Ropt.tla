------------------------------- MODULE MC_Ropt -------------------------------
(* Floor, symmetry and invertibility of the SPD parametrisation, for every *)
(* small parameter vector.                                                 *)
EXTENDS RoptCore
VARIABLES v, x
Vs == {<< -1, 1>>, <<0, 1>>, <<1, 2>>, <<2, 1>>}
Init == /\ v \in [1..5 -> Vs] /\ x \in [1..2 -> {<< -1, 1>>, <<0, 1>>, <<1, 1>>, <<2, 1>>}]
Next == UNCHANGED <<v, x>>
Spec == Init /\ [][Next]_<<v, x>>
Eps == <<1, 8>>
R == Spd(v, 3, 2, Eps)
Top == SubSeq(R, 1, 2)
Floor == RLe(RMul(Eps, Dots(x)), QuadForm(Top, x))
Sym == Top = Transpose(Top)
Rest == R[3] = <<v[4], v[5]>>
\* with a positive diagonal the factor is determined by the matrix
Solve == (v[1][1] > 0 /\ v[3][1] > 0) =>
  /\ SqN(v[1]) = RSub(R[1][1], Eps)
  /\ RMul(v[1], v[2]) = R[2][1]
  /\ SqN(v[3]) = RSub(RSub(R[2][2], Eps), SqN(v[2]))
=============================================================================

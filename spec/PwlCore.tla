------------------------------- MODULE PwlCore -------------------------------
(***************************************************************************)
(* Piecewise-linear Lyapunov functions V(x) = c[i].x + d[i] on cell i of a *)
(* piecewise-affine flow.  y is the layout: e1, e2 the rates, xs the       *)
(* equilibrium in cell eq; der the declared flows on the hull of their     *)
(* vertices; pos the pieces on which positivity is required; con the       *)
(* shared vertices of two cells.                                           *)
(***************************************************************************)
EXTENDS Rat
PwlV(c, d, m, x) == RAdd(Dot(c[m], x), d[m])
Flow(e, x) == VAdd(MatVec(e.A, x), e.g)
\* excess of the decrease condition at one point of a declared flow
DerAt(y, c, d, e, x) ==
  RAdd(Dot(c[e.m], Flow(e, x)), RMul(y.e2, PwlV(c, d, e.m, x)))
\* shortage of the positivity condition at one point of a piece
PosAt(y, c, d, e, x) ==
  RSub(RMul(y.e1, L1(VSub(x, y.xs))), PwlV(c, d, e.m, x))
ContAt(c, d, e, x) == RSub(PwlV(c, d, e.m, x), PwlV(c, d, e.m2, x))
\* least slacks: the worst excess over all vertices, and not negative
WorstOf(q) == RMaxSeq(<<R0>> \o q)
S1Min(y, c, d) ==
  WorstOf([k \in 1..Len(y.der) |->
     WorstOf([j \in 1..Len(y.der[k].vs) |->
        DerAt(y, c, d, y.der[k], y.der[k].vs[j])])])
S2Min(y, c, d) ==
  WorstOf([k \in 1..Len(y.pos) |->
     WorstOf([j \in 1..Len(y.pos[k].vs) |->
        PosAt(y, c, d, y.pos[k], y.pos[k].vs[j])])])
Anchored(y, c, d) == PwlV(c, d, y.eq, y.xs) = R0
Continuous(y, c, d) ==
  \A k \in 1..Len(y.con) : \A q \in 1..Len(y.con[k].vs) :
     ContAt(c, d, y.con[k], y.con[k].vs[q]) = R0
Admit(y, c, d, s1, s2) ==
  /\ Anchored(y, c, d) /\ Continuous(y, c, d)
  /\ RLe(R0, s1) /\ RLe(R0, s2)
  /\ RLe(S1Min(y, c, d), s1) /\ RLe(S2Min(y, c, d), s2)
Price(w, s1, s2) == RAdd(RMul(RSub(R1, w), s1), RMul(w, s2))
BestPrice(y, c, d, w) == Price(w, S1Min(y, c, d), S2Min(y, c, d))
=============================================================================

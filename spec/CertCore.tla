------------------------------ MODULE CertCore ------------------------------
(***************************************************************************)
(* Linear programs max c.x over {C x <= d, E x = f, lo <= x <= up} decided *)
(* by certificates: a feasible point and dual multipliers prove the        *)
(* optimum, a ray proves unboundedness, Farkas multipliers emptiness.      *)
(* Missing box sides are recorded as empty sequences.                      *)
(***************************************************************************)
EXTENDS Rat
\* All rows G x <= h, box sides included
BoxRows(n, lo, up) ==
  (IF up = <<>> THEN <<>> ELSE [k \in 1..n |-> <<Eye(n)[k], up[k]>>])
  \o (IF lo = <<>> THEN <<>> ELSE [k \in 1..n |-> <<VNeg(Eye(n)[k]), RNeg(lo[k])>>])
RowsOf(q) ==   \* q: [n, C, d, E, f, lo, up]
  [k \in 1..Len(q.C) |-> <<q.C[k], q.d[k]>>]
  \o [k \in 1..Len(q.E) |-> <<q.E[k], q.f[k]>>]
  \o [k \in 1..Len(q.E) |-> <<VNeg(q.E[k]), RNeg(q.f[k])>>]
  \o BoxRows(q.n, q.lo, q.up)
Feasible(q, x) == LET g == RowsOf(q) IN \A k \in 1..Len(g) : RLe(Dot(g[k][1], x), g[k][2])
NonNeg(l) == \A k \in 1..Len(l) : l[k][1] >= 0
Combo(g, l, n) == [j \in 1..n |-> RSum([k \in 1..Len(g) |-> RMul(l[k], g[k][1][j])])]
Bound(g, l) == RSum([k \in 1..Len(g) |-> RMul(l[k], g[k][2])])
\* cert.kind: "opt" (x, l), "unb" (x, r), "inf" (l)
Proves(q, c, cert) ==
  LET g == RowsOf(q) IN
  CASE cert.kind = "opt" ->
         /\ Feasible(q, cert.x)
         /\ Len(cert.l) = Len(g) /\ NonNeg(cert.l)
         /\ Combo(g, cert.l, q.n) = c
         /\ Bound(g, cert.l) = Dot(c, cert.x)
    [] cert.kind = "unb" ->
         /\ Feasible(q, cert.x)
         /\ \A k \in 1..Len(g) : Dot(g[k][1], cert.r)[1] <= 0
         /\ Dot(c, cert.r)[1] > 0
    [] cert.kind = "inf" ->
         /\ Len(cert.l) = Len(g) /\ NonNeg(cert.l)
         /\ \A j \in 1..q.n : Combo(g, cert.l, q.n)[j][1] = 0
         /\ Bound(g, cert.l)[1] < 0
    [] OTHER -> FALSE
\* the extreme as recorded: "num" (ticks), "+inf", "-inf"
Is(o, cert, value) ==
  CASE cert.kind = "opt" -> o.kind = "num" /\ NearT(o.v, value, 2)
    [] cert.kind = "unb" -> o.kind = "+inf"
    [] cert.kind = "inf" -> o.kind = "-inf"
IntervalLo(a, lo, up) == IF a[1] > 0 THEN RMul(a, lo) ELSE RMul(a, up)
IntervalUp(a, lo, up) == IF a[1] > 0 THEN RMul(a, up) ELSE RMul(a, lo)
RowLo(row, lo, up) == RSum([k \in 1..Len(row) |-> IntervalLo(row[k], lo[k], up[k])])
RowUp(row, lo, up) == RSum([k \in 1..Len(row) |-> IntervalUp(row[k], lo[k], up[k])])
\* image of an interval under the (possibly decreasing) leaky ReLU
LeakyVal(c, v) == IF v[1] >= 0 THEN v ELSE RMul(c, v)
LeakyEnds(c, lo, up) ==
  {LeakyVal(c, lo), LeakyVal(c, up)} \cup (IF lo[1] <= 0 /\ up[1] >= 0 THEN {R0} ELSE {})
SetMin(S) == CHOOSE v \in S : \A w \in S : RLe(v, w)
SetMax(S) == CHOOSE v \in S : \A w \in S : RLe(w, v)
=============================================================================

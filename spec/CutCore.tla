------------------------------ MODULE CutCore ------------------------------
(***************************************************************************)
(* Strengthening cuts of a leaky-ReLU unit y = max(c(wx+b), wx+b) on a     *)
(* box.  One cut per index set I:                                          *)
(*   y <= xc . x + bc * beta + k                                           *)
(***************************************************************************)
EXTENDS Rat
LoBar(w, lo, up, i) == IF w[i][1] >= 0 THEN lo[i] ELSE up[i]
UpBar(w, lo, up, i) == IF w[i][1] >= 0 THEN up[i] ELSE lo[i]
Cut(u, I) ==     \* u: unit [c, w, b, lo, up]
  LET n == Len(u.w)
      d == RSub(R1, u.c)
      lows == [i \in 1..n |-> IF i \in I THEN RMul(u.w[i], LoBar(u.w, u.lo, u.up, i)) ELSE R0]
      ups == [i \in 1..n |-> IF i \in I THEN R0 ELSE RMul(u.w[i], UpBar(u.w, u.lo, u.up, i))]
  IN [x |-> TLCEval([i \in 1..n |-> IF i \in I THEN u.w[i] ELSE RMul(u.c, u.w[i])]),
      b |-> RAdd(RMul(d, u.b), RMul(d, RAdd(RSum(lows), RSum(ups)))),
      k |-> RSub(RMul(u.c, u.b), RMul(d, RSum(lows)))]
CutRhs(ct, x, beta) == RAdd(RAdd(Dot(ct.x, x), RMul(ct.b, beta)), ct.k)
\* the least right-hand side over all index sets: each index separately
\* (the cuts' terms are separable)
TermIn(u, x, beta, i) ==
  RSub(RMul(u.w[i], x[i]),
       RMul(RMul(RSub(R1, u.c), RSub(R1, beta)), RMul(u.w[i], LoBar(u.w, u.lo, u.up, i))))
TermOut(u, x, beta, i) ==
  RAdd(RMul(u.c, RMul(u.w[i], x[i])),
       RMul(RMul(RSub(R1, u.c), beta), RMul(u.w[i], UpBar(u.w, u.lo, u.up, i))))
MinRhs(u, x, beta) ==
  RAdd(RAdd(RMul(u.b, u.c), RMul(RMul(u.b, RSub(R1, u.c)), beta)),
       RSum([i \in 1..Len(u.w) |-> RMin(TermIn(u, x, beta, i), TermOut(u, x, beta, i))]))
UnitPre(u, x) == RAdd(Dot(u.w, x), u.b)
UnitOut(u, x) == LET p == UnitPre(u, x) IN IF p[1] >= 0 THEN p ELSE RMul(u.c, p)
UnitBetas(u, x) ==
  LET p == UnitPre(u, x) IN
  IF p[1] > 0 THEN {R1} ELSE IF p[1] < 0 THEN {R0} ELSE {R0, R1}
CutValidAt(u, ct, x) ==
  \A beta \in UnitBetas(u, x) : RLe(UnitOut(u, x), CutRhs(ct, x, beta))
=============================================================================

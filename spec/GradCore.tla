------------------------------ MODULE GradCore ------------------------------
(* Generalised gradients of norms, and Minkowski sums.                      *)
EXTENDS ReluCore
\* 1-norm: entries within tol of zero take every sample in subs
L1Choices(x, tol, subs, k) ==
  IF RLe(RAbs(x[k]), tol) THEN {R1, RNeg(R1)} \cup subs
  ELSE {RInt(RSign(x[k]))}
RECURSIVE L1Grads(_, _, _, _)
L1Grads(x, tol, subs, n) ==
  IF n = 0 THEN {<<>>}
  ELSE {Append(g, v) : g \in L1Grads(x, tol, subs, n - 1), v \in L1Choices(x, tol, subs, n)}
L1Kinks(x, tol) == Cardinality({k \in 1..Len(x) : RLe(RAbs(x[k]), tol)})
RECURSIVE PowN(_, _)
PowN(b, n) == IF n = 0 THEN 1 ELSE b * PowN(b, n - 1)
\* infinity norm: signed unit vectors of the entries within tol of the norm
UnitV(n, k, s) == [j \in 1..n |-> IF j = k THEN RInt(s) ELSE R0]
LInf(x) == RMaxSeq([k \in 1..Len(x) |-> RAbs(x[k])])
LInfGrads(x, tol) ==
  LET m == LInf(x)
      n == Len(x)
  IN IF RLe(m, tol) THEN {UnitV(n, k, s) : k \in 1..n, s \in {1, -1}}
     ELSE {UnitV(n, k, RSign(x[k])) : k \in {j \in 1..n : RLe(RSub(m, RAbs(x[j])), tol)}}
\* every gradient supports the norm: |y| >= |x| + g(y - x) (tol = 0)
Supports(norm, x, y, g) == RLe(RAdd(norm[1], Dot(g, VSub(y, x))), norm[2])
=============================================================================

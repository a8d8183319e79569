----------------------------- MODULE HybridCore -----------------------------
(***************************************************************************)
(* Piecewise affine (hybrid linear) systems: modes m with the map          *)
(* z |-> m.A z + m.c on the polytope m.P z <= m.q, z = state with input.   *)
(***************************************************************************)
EXTENDS CertCore
InMode(m, z) == \A k \in 1..Len(m.P) : RLe(Dot(m.P[k], z), m.q[k])
Image(m, z) == VAdd(MatVec(m.A, z), m.c)
Modes(sys, z) == {k \in 1..Len(sys) : InMode(sys[k], z)}
Images(sys, z) == {Image(sys[k], z) : k \in Modes(sys, z)}
\* simulation: a trajectory of length T (states x_0 .. x_T) under the first
\* containing mode; it ends early at a state no mode contains
FirstMode(sys, z) == CHOOSE k \in Modes(sys, z) : \A j \in Modes(sys, z) : k <= j
RECURSIVE Run(_, _, _)
Run(sys, xs, n) ==
  LET x == xs[Len(xs)] IN
  IF n = 0 \/ Modes(sys, x) = {} THEN xs
  ELSE Run(sys, Append(xs, Image(sys[FirstMode(sys, x)], x)), n - 1)
\* The rows of the encoding the documentation gives, at input z, binaries g
\* (one per mode) and slacks s (one copy of z per mode)
ProductRows(lo, up, x, s, b) ==
  /\ RLe(RMul(b, lo), s) /\ RLe(s, RMul(b, up))
  /\ RLe(RSub(x, s), RMul(RSub(R1, b), up))
  /\ RLe(RMul(RSub(R1, b), lo), RSub(x, s))
EncRows(sys, lo, up, z, s, g) ==
  /\ \A k \in 1..Len(sys) : \A j \in 1..Len(z) :
       ProductRows(lo[j], up[j], z[j], s[k][j], g[k])
  /\ \A k \in 1..Len(sys) : \A r \in 1..Len(sys[k].P) :
       RLe(Dot(sys[k].P[r], s[k]), RMul(sys[k].q[r], g[k]))
  /\ RSum(g) = R1
EncOut(sys, s, g) ==
  LET RECURSIVE T(_)
      T(k) == IF k = 0 THEN VZero(Len(sys[1].c))
              ELSE VAdd(T(k - 1), VAdd(MatVec(sys[k].A, s[k]), VScale(g[k], sys[k].c)))
  IN T(Len(sys))
=============================================================================

------------------------------ MODULE CtrlCore ------------------------------
(***************************************************************************)
(* Control-affine systems  dx = f(x) + G(x) clamp(u, ulo, uup).            *)
(* sys: [kind, A, B, na, nb, nq, ulo, uup]                                 *)
(*   "linear"  f(x) = A x, G = B                                           *)
(*   "second"  x = (q, v); f(x) = (v, a(x)), G(x) = (0; b(x)), with a and  *)
(*             the rows of b given by networks na and nb                   *)
(***************************************************************************)
EXTENDS ReluCore
NU(sys) == Len(sys.ulo)
Chop(v, n) == TLCEval([r \in 1..(Len(v) \div n) |-> SubSeq(v, (r - 1) * n + 1, r * n)])
Drift(sys, x) ==
  IF sys.kind = "linear" THEN MatVec(sys.A, x)
  ELSE SubSeq(x, sys.nq + 1, Len(x)) \o Out(sys.na, x)
InputMatrix(sys, x) ==
  IF sys.kind = "linear" THEN sys.B
  ELSE [r \in 1..sys.nq |-> VZero(NU(sys))] \o Chop(Out(sys.nb, x), NU(sys))
Clamp(sys, u) == TLCEval([k \in 1..NU(sys) |-> RClamp(u[k], sys.ulo[k], sys.uup[k])])
Dyn(sys, x, u) == VAdd(Drift(sys, x), MatVec(InputMatrix(sys, x), Clamp(sys, u)))
=============================================================================

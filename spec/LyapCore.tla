------------------------------ MODULE LyapCore ------------------------------
(***************************************************************************)
(* Candidate Lyapunov functions V(x) = phi(x) - phi(xs) + lam |R(x-xs)|_1  *)
(* and the quantities the certificates maximise.                           *)
(* L: [net, xs, lam, R];  T: the closed system, [sys, loop, ctl].          *)
(***************************************************************************)
EXTENDS SysCore, GradCore
ErrV(L, x) == MatVec(L.R, VSub(x, L.xs))
Err(L, x) == L1(ErrV(L, x))
Value(L, x) ==
  RAdd(RSub(Out(L.net, x)[1], Out(L.net, L.xs)[1]), RMul(L.lam, Err(L, x)))
\* positivity: must be <= 0
PosGap(L, eps, x) == RSub(RMul(eps, Err(L, x)), Value(L, x))
\* decrease from x to y (discrete time): must be <= 0
DecGap(L, type, eps, x, y) ==
  LET d == RSub(Value(L, y), Value(L, x)) IN
  CASE type = "lower" -> RAdd(d, RMul(eps, Value(L, x)))
    [] type = "upper" -> RNeg(RAdd(d, RMul(eps, Value(L, x))))
    [] type = "asymp" -> RAdd(d, RMul(eps, Err(L, x)))
\* generalised gradients of V
VGrads(L, x, tol) ==
  {VAdd(g[1], VScale(L.lam, VecMat(h, L.R))) :
     g \in AllGradients(L.net, x, tol), h \in L1Grads(ErrV(L, x), tol, {}, Len(L.R))}
\* successors of the closed (or autonomous) system
Next1(T, x) == IF T.loop THEN LoopSucc(T.sys, T.ctl, x) ELSE Succ(T.sys, x, <<>>)
InBoxT(x, lo, up, tol) ==
  \A k \in 1..Len(x) : RLe(RSub(lo[k], tol), x[k]) /\ RLe(x[k], RAdd(up[k], tol))
NextIn(T, x, lo, up, tol) == {y \in Next1(T, x) : InBoxT(y, lo, up, tol)}
\* continuous time: derivative of V along a velocity, plus the rate term
Flow(L, eps, x, g, y) == RAdd(Dot(g, y), RMul(eps, Value(L, x)))
Flows(L, T, eps, x, tol) ==
  {Flow(L, eps, x, g, y) : g \in VGrads(L, x, tol), y \in Next1(T, x)}
\* gradients at x that are limits of gradients met inside the box
RECURSIVE Dirs(_)
Dirs(n) == IF n = 0 THEN {<<>>} ELSE {Append(d, s) : d \in Dirs(n - 1), s \in {-1, 0, 1}}
Shifted(x, d, h) == [k \in 1..Len(x) |-> RAdd(x[k], Norm(d[k], h))]
LimitGrads(L, x, lo, up) ==
  LET G == VGrads(L, x, R0) IN
  IF Cardinality(G) = 1 THEN G
  ELSE {g \in G : \E d \in Dirs(Len(x)) :
          LET z == Shifted(x, d, 64) IN
          /\ \A k \in 1..Len(z) : RLe(lo[k], z[k]) /\ RLe(z[k], up[k])
          /\ VGrads(L, z, R0) = {g}}
\* Band: <<>> or <<bound>> on either side
InBand(L, x, lo, up, tol) ==
  LET v == Value(L, x) IN
  /\ (lo # <<>> => RLe(RSub(lo[1], tol), v))
  /\ (up # <<>> => RLe(v, RAdd(up[1], tol)))

\* Rounded evaluation at states that are not small dyadics: intermediate
\* states and inputs to 1/16384, modes within a tolerance.
D == 16384
RECURSIVE Trim(_)
Trim(v) == IF v[2] <= D THEN v
           ELSE IF v[2] > 16777216 THEN Trim(<<v[1] \div 128, v[2] \div 128>>)
           ELSE LET q == v[1] \div v[2]
                    r == v[1] - q * v[2]
                    a == (r * 64) \div v[2]
                    z == r * 64 - a * v[2]
                IN Norm(q * D + a * 256 + (z * 256) \div v[2], D)
VTrim(v) == TLCEval([k \in 1..Len(v) |-> Trim(v[k])])
InModeT(m, z, tol) == \A k \in 1..Len(m.P) : RLe(Dot(m.P[k], z), RAdd(m.q[k], tol))
SuccT(sys, x, u, tol) ==
  IF sys.kind = "hybrid"
  THEN {VTrim(Image(sys.modes[k], x \o u)) :
          k \in {j \in 1..Len(sys.modes) : InModeT(sys.modes[j], x \o u, tol)}}
  ELSE {VTrim(Step(sys, x, u))}
NextT(T, x, tol) ==
  IF T.loop THEN SuccT(T.sys, x, VTrim(Law(T.ctl, x)), tol) ELSE SuccT(T.sys, x, <<>>, tol)
FlowsT(L, T, eps, x, tol) ==
  {Flow(L, eps, x, VTrim(g), y) : g \in VGrads(L, x, tol), y \in NextT(T, x, tol)}
NextInT(T, x, lo, up, tol) == {y \in NextT(T, x, tol) : InBoxT(y, lo, up, tol)}
=============================================================================

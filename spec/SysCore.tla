------------------------------ MODULE SysCore ------------------------------
(***************************************************************************)
(* Dynamical systems given by (leaky) ReLU networks, and the closed loop   *)
(* of such a system (or of a hybrid linear system) with a saturated,       *)
(* equilibrium-shifted controller.                                         *)
(*                                                                         *)
(* sys: [kind, net, disc, xs, us, dt, idx, modes]                          *)
(*  autonomous     "plain"     phi(x)                                      *)
(*                 "pinned"    phi(x) - phi(xs) (+ xs, discrete time)      *)
(*                 "residual"  phi(x) - phi(xs) (+ x, discrete time)       *)
(*  with input     "uplain"    phi(x, u)                                   *)
(*                 "upinned"   phi(x, u) - phi(xs, us) (+ xs)              *)
(*                 "second"    v' = phi(x, u) - phi(xs, us)                *)
(*                 "residue"   v' = v + phi(x[idx], u) - phi(xs[idx], us)  *)
(*                             with q' = q + (v + v') dt / 2               *)
(*                 "flow2"     q' = v, v' = phi(x, u) - phi(xs, us)        *)
(*                 "hybrid"    affine map of a containing mode             *)
(*                 "vehicle"   A z + S (phi(P1 z + b1) - phi(P2 z + b2)),  *)
(*                             z = x \o u, fields in sys.map               *)
(***************************************************************************)
EXTENDS HybridCore, ReluCore
Pick(x, idx) == TLCEval([k \in 1..Len(idx) |-> x[idx[k]]])
Shift(net, z, zs) == VSub(Out(net, z), Out(net, zs))
Half(x, n) == SubSeq(x, 1, Len(x) - n)          \* positions
Vel(x, n) == SubSeq(x, Len(x) - n + 1, Len(x))  \* velocities
MidPoint(x, v1, dt) ==
  LET n == Len(v1)
  IN VAdd(Half(x, n), VScale(RMul(dt, <<1, 2>>), VAdd(Vel(x, n), v1)))
Step(sys, x, u) ==
  CASE sys.kind = "plain" -> Out(sys.net, x)
    [] sys.kind = "pinned" ->
         LET d == Shift(sys.net, x, sys.xs) IN IF sys.disc THEN VAdd(d, sys.xs) ELSE d
    [] sys.kind = "residual" ->
         LET d == Shift(sys.net, x, sys.xs) IN IF sys.disc THEN VAdd(d, x) ELSE d
    [] sys.kind = "uplain" -> Out(sys.net, x \o u)
    [] sys.kind = "upinned" ->
         LET d == Shift(sys.net, x \o u, sys.xs \o sys.us)
         IN IF sys.disc THEN VAdd(d, sys.xs) ELSE d
    [] sys.kind = "second" ->
         LET v1 == Shift(sys.net, x \o u, sys.xs \o sys.us)
         IN MidPoint(x, v1, sys.dt) \o v1
    [] sys.kind = "residue" ->
         LET d == Shift(sys.net, Pick(x, sys.idx) \o u, Pick(sys.xs, sys.idx) \o sys.us)
             v1 == VAdd(Vel(x, Len(d)), d)
         IN MidPoint(x, v1, sys.dt) \o v1
    [] sys.kind = "vehicle" ->
         LET m == sys.map
             z == x \o u
             d == VSub(Out(sys.net, VAdd(MatVec(m.P1, z), m.b1)), Out(sys.net, VAdd(MatVec(m.P2, z), m.b2)))
         IN VAdd(MatVec(m.A, z), MatVec(m.S, d))
    [] sys.kind = "flow2" ->
         LET d == Shift(sys.net, x \o u, sys.xs \o sys.us) IN Vel(x, Len(d)) \o d
\* what the network of the system reads
NetIn(sys, x, u) ==
  CASE sys.kind \in {"plain", "pinned", "residual"} -> x
    [] sys.kind = "residue" -> Pick(x, sys.idx) \o u
    [] sys.kind = "vehicle" -> VAdd(MatVec(sys.map.P1, x \o u), sys.map.b1)
    [] OTHER -> x \o u
Succ(sys, x, u) ==
  IF sys.kind = "hybrid" THEN Images(sys.modes, x \o u) ELSE {Step(sys, x, u)}
Pins(sys) == sys.kind \in {"pinned", "residual", "upinned", "second", "residue", "flow2", "vehicle"}
\* a constant of the model that is no small rational moves values this much
SysTol(sys) == IF sys.kind = "vehicle" THEN sys.map.tol ELSE 0
Same(sys, v, w) ==
  IF SysTol(sys) = 0 THEN v = w
  ELSE Len(v) = Len(w) /\ \A k \in 1..Len(v) : Abs(ToTick(v[k]) - ToTick(w[k])) <= SysTol(sys)
OneOf(sys, v, S) == \E w \in S : Same(sys, v, w)
Rest(sys) == IF sys.disc THEN sys.xs ELSE VZero(Len(sys.xs))

\* ctl: [net, xs, us, lim, lo, up]; input k is clamped when lim[k]
Clamp1(ctl, k, v) == IF ctl.lim[k] THEN RClamp(v, ctl.lo[k], ctl.up[k]) ELSE v
\* ctl.push (if there): lam |R p|_1 is added to the first input, p the position
Norm1(v) == RSum([k \in 1..Len(v) |-> RAbs(v[k])])
Push(ctl, x, r) ==
  IF "push" \notin DOMAIN ctl THEN r
  ELSE [r EXCEPT ![1] = RAdd(@, RMul(ctl.push.lam, Norm1(MatVec(ctl.push.R, SubSeq(x, 1, 2)))))]
Law(ctl, x) ==
  LET r == Push(ctl, x, VAdd(Shift(ctl.net, x, ctl.xs), ctl.us))
  IN TLCEval([k \in 1..Len(r) |-> Clamp1(ctl, k, r[k])])
LoopSucc(sys, ctl, x) == Succ(sys, x, Law(ctl, x))
=============================================================================

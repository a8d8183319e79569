------------------------------- MODULE RK4Core -------------------------------
(***************************************************************************)
(* Constant-control Runge-Kutta integration.  The dynamics is polynomial: *)
(*   f(x, u)_r = A_r.x + B_r.u + x'Q_r x + c_r                             *)
(* A run samples the control once, at the initial state, and then makes N *)
(* classical fourth-order steps of size dt with that control.             *)
(***************************************************************************)
EXTENDS Rat

Quad(Q, x) == Dot(x, MatVec(Q, x))
F(d, x, u) ==
  TLCEval([r \in 1..Len(x) |->
    RAdd(RAdd(Dot(d.A[r], x), Dot(d.B[r], u)),
         RAdd(d.c[r], IF d.Q[r] = <<>> THEN R0 ELSE Quad(d.Q[r], x)))])
RkStep(d, x, u, dt) ==
  LET h == RMul(dt, <<1, 2>>)
      k1 == F(d, x, u)
      k2 == F(d, VAdd(x, VScale(h, k1)), u)
      k3 == F(d, VAdd(x, VScale(h, k2)), u)
      k4 == F(d, VAdd(x, VScale(dt, k3)), u)
      s == VAdd(VAdd(k1, k4), VScale(<<2, 1>>, VAdd(k2, k3)))
  IN VAdd(x, VScale(RMul(dt, <<1, 6>>), s))
(* The same step in fixed point (ticks), for longer runs. *)
FT(d, x, u) ==
  TLCEval([r \in 1..Len(x) |->
    CDotT(d.A[r], x) + CDotT(d.B[r], u) + ToTick(d.c[r])
    + (IF d.Q[r] = <<>> THEN 0
       ELSE ISum([a \in 1..Len(x) |->
              CDotT(d.Q[r][a], [b \in 1..Len(x) |-> TMul(x[a], x[b])])]))])
TAx(x, h, k) == TLCEval([r \in 1..Len(x) |-> x[r] + CMulT(h, k[r])])
RkStepT(d, x, u, dt) ==
  LET h == RMul(dt, <<1, 2>>)
      k1 == FT(d, x, u)
      k2 == FT(d, TAx(x, h, k1), u)
      k3 == FT(d, TAx(x, h, k2), u)
      k4 == FT(d, TAx(x, dt, k3), u)
  IN TAx(x, RMul(dt, <<1, 6>>),
         [r \in 1..Len(x) |-> k1[r] + 2 * k2[r] + 2 * k3[r] + k4[r]])
RECURSIVE RunT(_, _, _, _, _)
RunT(d, x, u, dt, n) ==
  IF n = 0 THEN x ELSE RunT(d, RkStepT(d, x, u, dt), u, dt, n - 1)
RECURSIVE RunX(_, _, _, _, _)
RunX(d, x, u, dt, n) ==
  IF n = 0 THEN x ELSE RunX(d, RkStep(d, x, u, dt), u, dt, n - 1)
\* affine control law
Ctl(p, x) == VAdd(MatVec(p.K, x), p.k)
=============================================================================

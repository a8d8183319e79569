-------------------------------- MODULE Body --------------------------------
EXTENDS BodyCore, TraceLib
Small(v, tol) == \A k \in 1..Len(v) : Abs(v[k]) <= tol
NearS(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
UnitPair(e) == e.model = "pole" \/ \A k \in 1..Len(e.s) : Abs(TMul(e.s[k], e.s[k]) + TMul(e.c[k], e.c[k]) - K) <= 4
\* The recorded finding about the pole: the cross velocity term of the
\* vertical balance has the wrong sign, and nothing else is wrong.
PoleSlip(e) ==
  LET h == e.c[1]
      q == TDiv(TMul(TMul(e.x[1], e.x[2]), TMul(e.x[6], e.x[7])), h)
  IN CMulT(RMul(<<4, 1>>, e.p.ms), TDiv(TDiv(q, h), h))
Moves(e, d, name) ==
  LET B == Imbalance(e, d)
  IN IF Small(B, e.tol) THEN {}
     ELSE IF e.model = "pole" /\ Small([B EXCEPT ![5] = @ + PoleSlip(e)], e.tol)
     THEN {"sign-of-the-cross-velocity-term"} ELSE {name}
V(z, e) ==
  CASE e.op = "takes" -> C("tensors-accepted", e.ok)
    [] e.op = "rate" ->
         C("sines-and-cosines", UnitPair(e))
         \cup C("array-and-tensor-agree", NearS(e.d, e.dt, 2))
         \cup Moves(e, e.d, "equations-of-motion")
         \cup Moves(e, e.dt, "equations-of-motion-tensor")
    [] e.op = "energy" ->
         C("kinetic-energy", Abs(e.kin - PendulumKinetic(e.p, e.x)) <= 8)
         \cup C("potential-energy", Abs(e.pot - PendulumPotential(e.p, e.c[1])) <= 24)
    [] e.op = "slope" -> C("linear-model-is-the-derivative", NearS(e.got, e.want, e.tol))
    [] e.op = "rest" -> C("equilibrium-has-zero-derivative", Small(e.d, 2))
    [] e.op = "arc" ->
         C("pose-after-a-turn", NearS(SubSeq(e.got, 1, 2), Arc(e.x, e.v, e.w, e.t, e.s[1], e.c[1], e.s[2], e.c[2]), e.tol)
                                /\ Abs(e.got[3] - (e.x[3] + TMul(e.w, e.t))) <= 4)
    [] e.op = "glide" ->
         C("pose-after-a-straight-path", NearS(e.got, Glide(e.x, e.v, e.a, e.t), e.tol))
    [] e.op = "brake" ->   \* the shaping torque takes energy out above the goal
         C("energy-shaping-sign",
           /\ (e.ex > 24 /\ Abs(e.w) > 64) => e.u * (IF e.w > 0 THEN 1 ELSE -1) < 0
           /\ (e.ex < -24 /\ Abs(e.w) > 64) => e.u * (IF e.w > 0 THEN 1 ELSE -1) > 0)
    [] e.op = "stable" ->  \* a 2 x 2 closed loop
         C("feedback-stabilises", e.M[1][1] + e.M[2][2] < 0 /\
           TMul(e.M[1][1], e.M[2][2]) - TMul(e.M[1][2], e.M[2][1]) > 0)
    [] e.op = "balance" -> C(e.what, NearS(e.got, e.want, e.tol))
    [] e.op = "kept" -> C("inputs-left-alone", e.ok)
    [] OTHER -> {"unexpected:" \o e.op}
N(z, e) == z
S0 == 0
=============================================================================

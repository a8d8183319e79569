------------------------------ MODULE BodyCore ------------------------------
(***************************************************************************)
(* Equations of motion of the vehicles, as balances that a time derivative *)
(* d of the state x under the input u must satisfy: each operator gives    *)
(* the imbalances (zero for a motion the physics allows).  States, inputs, *)
(* derivatives and the sine and cosine of the angles are ticks; the        *)
(* parameters p (masses, lengths, ...) are rationals.                      *)
(***************************************************************************)
EXTENDS Rat
TDiv(a, b) == LET q == a \div b IN q * K + RDivI((a - q * b) * K, b)   \* b > 0
Moved(d, v) == [k \in 1..Len(v) |-> d[k] - v[k]]
\* ---- pendulum <<angle, rate>>, torque u
Pendulum(p, x, u, s, c, d) ==
  <<d[1] - x[2],
    CMulT(RMul(p.m, RMul(p.l, p.l)), d[2]) - u[1]
      + CMulT(RMul(p.m, p.l), CMulT(p.g, s)) + CMulT(p.b, x[2])>>
PendulumKinetic(p, x) == CMulT(RMul(<<1, 2>>, RMul(p.m, RMul(p.l, p.l))), TMul(x[2], x[2]))
PendulumPotential(p, c) == -CMulT(RMul(p.m, p.l), CMulT(p.g, c))
\* ---- planar cars with heading angle x[3]
Unicycle(p, x, u, s, c, d) == <<d[1] - TMul(u[1], c), d[2] - TMul(u[1], s), d[3] - u[2]>>
Car(p, x, u, s, c, d) == <<d[1] - TMul(x[4], c), d[2] - TMul(x[4], s), d[3] - u[1], d[4] - u[2]>>
\* ---- planar bodies <<x, z, angle, rates>>; gravity along z
G(p) == CMulT(p.g, K)
Quad2(p, x, u, s, c, d) ==
  Moved(d, SubSeq(x, 4, 6)) \o
  <<CMulT(p.m, d[4]) + TMul(s, u[1] + u[2]),
    CMulT(p.m, d[5] + G(p)) - TMul(c, u[1] + u[2]),
    d[6] - CMulT(RDiv(p.l, p.I), u[1] - u[2])>>
\* thrust u in the body's frame acts at the bottom, half a length from the
\* centre; (a1, a2) the acceleration of the centre
Thrust(p, a1, a2, u, s, c, d) ==
  <<CMulT(p.m, TMul(c, a1) + TMul(s, a2 + G(p))) - u[1],
    CMulT(p.m, TMul(c, a2 + G(p)) - TMul(s, a1)) - u[2],
    d[6] - CMulT(RDiv(RMul(<<1, 2>>, p.l), p.I), u[1])>>
Rocket(p, x, u, s, c, d) ==
  Moved(d, SubSeq(x, 4, 6)) \o Thrust(p, d[4], d[5], u, s, c, d)
\* the same body described by its bottom: centre = bottom + l/2 (-sin, cos)
Rocket2(p, x, u, s, c, d) ==
  LET w2 == TMul(x[6], x[6])
      h(v) == CMulT(RMul(<<1, 2>>, p.l), v)
  IN Moved(d, SubSeq(x, 4, 6)) \o
     Thrust(p, d[4] - h(TMul(c, d[6]) - TMul(s, w2)),
               d[5] - h(TMul(s, d[6]) + TMul(c, w2)), u, s, c, d)
\* ---- quadrotor <<position, roll-pitch-yaw, velocity, body rates>>; s and c
\* are the sines and cosines of the three angles
Quad3(p, x, u, s, c, d) ==
  LET F == u[1] + u[2] + u[3] + u[4]
      w == SubSeq(x, 10, 12)
      e(k, j, q) == RDiv(RSub(p.I[k], p.I[j]), p.I[q])
  IN Moved(d, SubSeq(x, 7, 9)) \o
     <<w[1] - (d[4] - TMul(d[6], s[2])),
       w[2] - (TMul(d[5], c[1]) + TMul(d[6], TMul(s[1], c[2]))),
       w[3] - (TMul(d[6], TMul(c[1], c[2])) - TMul(d[5], s[1])),
       CMulT(p.m, d[7]) - TMul(F, TMul(TMul(c[3], s[2]), c[1]) + TMul(s[3], s[1])),
       CMulT(p.m, d[8]) - TMul(F, TMul(TMul(s[3], s[2]), c[1]) - TMul(c[3], s[1])),
       CMulT(p.m, d[9] + G(p)) - TMul(F, TMul(c[2], c[1])),
       d[10] - CMulT(RDiv(p.l, p.I[1]), u[2] - u[4]) - CMulT(e(2, 3, 1), TMul(w[2], w[3])),
       d[11] - CMulT(RDiv(p.l, p.I[2]), u[3] - u[1]) - CMulT(e(3, 1, 2), TMul(w[3], w[1])),
       d[12] - CMulT(RDiv(p.k, p.I[3]), u[1] - u[2] + u[3] - u[4]) - CMulT(e(1, 2, 3), TMul(w[1], w[2]))>>
\* ---- a ball (mass ms) on a massless pole held by a hand (mass me) that is
\* pushed by u: state <<offset of the ball (x, y), velocity of the hand,
\* rate of the offset>>; z the height of the ball over the hand
Pole(p, x, u, z, d) ==
  LET w1 == x[6]
      w2 == x[7]
      r1 == d[6]
      r2 == d[7]
      zd == TDiv(-(TMul(x[1], w1) + TMul(x[2], w2)), z)
      zdd == TDiv(-(TMul(w1, w1) + TMul(w2, w2) + TMul(x[1], r1) + TMul(x[2], r2)) - TMul(zd, zd), z)
      M == RAdd(p.ms, p.me)
      \* what holds the ball
      f1 == d[3] + r1
      f2 == d[4] + r2
      f3 == d[5] + zdd + G(p)
  IN Moved(d, SubSeq(x, 6, 7)) \o
     <<CMulT(M, d[3]) + CMulT(p.ms, r1) - u[1],
       CMulT(M, d[4]) + CMulT(p.ms, r2) - u[2],
       CMulT(M, d[5] + G(p)) + CMulT(p.ms, zdd) - u[3],
       TMul(f1, z) - TMul(f3, x[1]), TMul(f2, z) - TMul(f3, x[2])>>
Imbalance(e, d) ==
  CASE e.model = "pendulum" -> Pendulum(e.p, e.x, e.u, e.s[1], e.c[1], d)
    [] e.model = "unicycle" -> Unicycle(e.p, e.x, e.u, e.s[1], e.c[1], d)
    [] e.model = "car" -> Car(e.p, e.x, e.u, e.s[1], e.c[1], d)
    [] e.model = "quad2d" -> Quad2(e.p, e.x, e.u, e.s[1], e.c[1], d)
    [] e.model = "rocket" -> Rocket(e.p, e.x, e.u, e.s[1], e.c[1], d)
    [] e.model = "rocket2" -> Rocket2(e.p, e.x, e.u, e.s[1], e.c[1], d)
    [] e.model = "quad3d" -> Quad3(e.p, e.x, e.u, e.s, e.c, d)
    [] e.model = "pole" -> Pole(e.p, e.x, e.u, e.c[1], d)
\* ---- a straight or circular path, or free flight, for a time t
Arc(x, v, w, t, s, c, s1, c1) ==      \* heading rate w (ticks, not zero)
  IF w > 0
  THEN <<x[1] + TMul(TDiv(v, w), s1 - s), x[2] - TMul(TDiv(v, w), c1 - c)>>
  ELSE <<x[1] - TMul(TDiv(v, -w), s1 - s), x[2] + TMul(TDiv(v, -w), c1 - c)>>
Glide(x, v, a, t) ==
  [k \in 1..Len(v) |-> x[k] + TMul(v[k], t) + RDivI(TMul(a[k], TMul(t, t)), 2)]
=============================================================================

------------------------------ MODULE SlipCore -------------------------------
(***************************************************************************)
(* The spring-mass hopper: a body on a massless springy leg.  In flight it *)
(* falls freely with the leg at a chosen angle; on the ground the leg      *)
(* pivots about the foot and pushes along itself; it leaves the ground     *)
(* when the leg is back at rest length, or falls when the leg lies flat.   *)
(* Lengths, times and speeds are ticks.  A leg is [a, s, c]: its angle     *)
(* with its sine and cosine.  A parameter record p has the rest length l0, *)
(* gravity g and stiffness per mass w.                                     *)
(***************************************************************************)
EXTENDS Rat
Half(a) == RDivI(a, 2)
Sq(a) == TMul(a, a)
RECURSIVE SqrtStep(_, _, _)
SqrtStep(q, lo, up) ==       \* largest m in lo..up with m*m <= q*K
  IF up <= lo THEN lo
  ELSE LET m == (lo + up + 1) \div 2
       IN IF Sq(m) <= q THEN SqrtStep(q, m, up) ELSE SqrtStep(q, lo, m - 1)
TSqrt(q) == IF q <= 0 THEN 0 ELSE SqrtStep(q, 0, 30 * K)
TDiv(a, b) == LET q == a \div b IN q * K + RDivI((a - q * b) * K, b)   \* b > 0
IsLeg(leg) == Abs(Sq(leg.s) + Sq(leg.c) - K) <= 4

\* ---- flight: <<x, y, vx, vy>>
Fall(p, q, t) ==
  <<q[1] + TMul(q[3], t), q[2] + TMul(q[4], t) - Half(TMul(p.g, Sq(t))), q[3], q[4] - TMul(p.g, t)>>
FlightRate(p, q) == <<q[3], q[4], 0, -p.g>>
FlightEnergy(p, q) == Half(Sq(q[3]) + Sq(q[4])) + TMul(p.g, q[2])
FootX(p, q, leg) == q[1] + TMul(p.l0, leg.s)
FootY(p, q, leg) == q[2] - TMul(p.l0, leg.c)
\* ---- stance: leg length r, its rate rd, angular rate ad, foot at f
Body(q, leg) ==
  LET u == TMul(q.r, q.ad) IN
  <<q.f - TMul(q.r, leg.s), TMul(q.r, leg.c),
    -TMul(q.rd, leg.s) - TMul(u, leg.c), TMul(q.rd, leg.c) - TMul(u, leg.s)>>
\* landing keeps position and velocity of the body and pins the foot
Land(p, q, leg) ==
  [r |-> p.l0, a |-> leg.a, rd |-> TMul(q[4], leg.c) - TMul(q[3], leg.s),
   ad |-> TDiv(-TMul(q[3], leg.c) - TMul(q[4], leg.s), p.l0), f |-> q[1] + TMul(p.l0, leg.s)]
\* gravity, and the spring along the leg
RAcc(p, q, leg) ==
  TMul(TMul(q.r, q.ad), q.ad) - TMul(p.g, leg.c) + TMul(p.w, p.l0 - q.r)
\* angular momentum about the foot changes by the moment of gravity only
AAccTimesR(p, q, leg) == TMul(p.g, leg.s) - 2 * TMul(q.rd, q.ad)
StanceEnergy(p, q, leg) ==
  Half(Sq(TMul(q.r, q.ad)) + Sq(q.rd)) + Half(TMul(p.w, Sq(p.l0 - q.r)))
  + TMul(p.g, TMul(q.r, leg.c))
Power(p, q, leg) ==    \* rate of the energy along the motion
  TMul(q.rd, RAcc(p, q, leg)) + TMul(TMul(q.r, q.ad), TMul(q.rd, q.ad) + AAccTimesR(p, q, leg))
  - TMul(p.w, TMul(p.l0 - q.r, q.rd))
  + TMul(p.g, TMul(q.rd, leg.c) - TMul(TMul(q.r, q.ad), leg.s))
\* ---- apex: reached from q after vy / g; <<x, y, vx, 0>>
RiseTime(p, q) == TDiv(q[4], p.g)
Apex(p, q) == Fall(p, q, RiseTime(p, q))
\* the hop from an apex needs the foot above the ground
CanLand(p, q, leg) == q[2] >= TMul(p.l0, leg.c)
Steps(p, q, leg) == q[2] > TMul(p.l0, leg.c)
DropTime(p, q, leg) == TSqrt(TDiv(2 * (q[2] - TMul(p.l0, leg.c)), p.g))
=============================================================================

-------------------------------- MODULE Slip --------------------------------
EXTENDS SlipCore, TraceLib
NearI(a, b, tol) == Abs(a - b) <= tol
NearS(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
St(r) == [r |-> r[1], a |-> r[2], rd |-> r[3], ad |-> r[4], f |-> r[5]]
Up(a) == (Abs(a) + K - 1) \div K
\* rounding: observed numbers are rounded to ticks before they are multiplied
FTol(q, h) == 8 + Up(q[3]) + Up(q[4]) + 4 * Up(h)
ETol(p, q) == 16 + 3 * (Up(q[3]) + Up(q[4])) + Up(p.g)
SETol(p, z) == 40 + 4 * Up(z.rd) + 8 * Up(z.ad) + Up(TMul(p.w, p.l0 - z.r)) + Up(p.g)
Legged(e) == C("unit-leg", IsLeg(e.leg))
\* the maps along one stance, sampled at the recorded instants
Smooth(p, z0, z1, l0, l1, h) ==
  /\ NearI(z1.r - z0.r, TMul(h, Half(z0.rd + z1.rd)) +
           TMul(h, TMul(h, RAcc(p, z0, l0) - RAcc(p, z1, l1))) \div 12, 24)
  /\ NearI(z1.a - z0.a, TMul(h, Half(z0.ad + z1.ad)) +
           TMul(h, TMul(h, TDiv(AAccTimesR(p, z0, l0), z0.r) - TDiv(AAccTimesR(p, z1, l1), z1.r))) \div 12, 24)
V(s, e) ==
  CASE e.op = "flight" -> C("free-fall", NearS(e.got, FlightRate(e.p, e.q), 2))
    [] e.op = "stance" ->
         LET z == St(e.q) IN
         Legged(e)
         \cup C("stance-rates", e.got[1] = z.rd /\ e.got[2] = z.ad /\ e.got[5] = 0)
         \cup C("radial-motion", NearI(e.got[3], RAcc(e.p, z, e.leg), 24))
         \cup C("angular-motion", NearI(TMul(e.got[4], z.r), AAccTimesR(e.p, z, e.leg), 24))
    [] e.op = "guards" ->
         C("touchdown-guard", NearI(e.td, FootY(e.p, e.q, e.leg), 4))
         \cup C("liftoff-guard", NearI(e.lo, e.z[1] - e.p.l0, 2))
         \cup C("apex-guard", NearI(e.apex, e.q[4], 1))
    [] e.op = "land" ->
         C("landing", NearS(e.got, LET z == Land(e.p, e.q, e.leg) IN <<z.r, z.a, z.rd, z.ad, z.f>>, 12))
         \cup C("landing-keeps-energy",
                NearI(StanceEnergy(e.p, St(e.got), e.leg),
                      Half(Sq(e.q[3]) + Sq(e.q[4])) + TMul(e.p.g, TMul(e.p.l0, e.leg.c)), 60))
    [] e.op = "leave" -> C("lift-off-keeps-the-body", NearS(e.got, Body(St(e.q), e.leg), 12))
    [] e.op = "energy" ->
         C("flight-energy", NearI(e.flight, FlightEnergy(e.p, e.q), 16))
         \cup C("stance-energy", NearI(e.stance, StanceEnergy(e.p, St(e.z), e.leg), 40))
    \* ---- a run of the simulation
    [] e.op \in {"start", "nohop"} -> {}
    [] e.op = "fly" ->
         LET n == Len(e.ys)
             h == e.ts[n] - e.ts[1]
             q0 == s.q
             qn == e.ys[n]
         IN C("flight-follows-apex-or-start", s.ph = "flight")
            \cup C("flight-starts-where-it-should", NearS(e.ys[1], q0, 40) /\ NearI(e.ts[1], s.t, 12))
            \cup C("ballistic", \A k \in 1..n :
                   NearS(e.ys[k], Fall(s.p, e.ys[1], e.ts[k] - e.ts[1]), FTol(e.ys[k], h)))
            \cup C("above-the-ground-until-touchdown",
                   \A k \in 1..n - 1 : FootY(s.p, e.ys[k], e.leg) >= -4)
            \cup C("touchdown-on-the-ground", NearI(FootY(s.p, qn, e.leg), 0, 6))
            \cup C("touchdown-falling", qn[4] <= 2)
            \cup C("leg-angle-used", NearI(e.leg.a, s.legs[s.k].a, 1))
    [] e.op = "stand" ->
         LET n == Len(e.ys)
             z(k) == St(e.ys[k])
             L == Land(s.p, s.q, s.leg)
             zn == z(n)
         IN C("stance-follows-flight", s.ph = "stance")
            \cup C("landing", NearS(e.ys[1], <<L.r, L.a, L.rd, L.ad, L.f>>, 40) /\ NearI(e.ts[1], s.t, 3))
            \cup C("foot-pinned", \A k \in 1..n : NearI(z(k).f, z(1).f, 2))
            \cup C("stance-energy-kept", \A k \in 1..n :
                   NearI(StanceEnergy(s.p, z(k), e.legs[k]), s.e0, SETol(s.p, z(k)) + ETol(s.p, s.q)))
            \cup C("stance-motion", \A k \in 1..n - 1 :
                   e.ts[k + 1] - e.ts[k] <= K \div 8 =>
                     Smooth(s.p, z(k), z(k + 1), e.legs[k], e.legs[k + 1], e.ts[k + 1] - e.ts[k]))
            \cup C("leg-compressed-until-lift-off", \A k \in 1..n : z(k).r <= s.p.l0 + 8)
            \cup C("not-flat-before-the-end", \A k \in 1..n - 1 : Abs(z(k).a) <= 6434)
            \cup C("ends-at-lift-off-or-flat",
                   \* a grazing landing may end at once: the compression is
                   \* shorter than a step of the integrator
                   (NearI(zn.r, s.p.l0, 6) /\ (zn.rd >= -2 \/ (e.ts[n] - e.ts[1] <= 2 /\ zn.rd >= -400))) \/ NearI(Abs(zn.a), 6434, 6))
    [] e.op = "end" ->
         C("stopped-early", s.ph \in {"done", "over"} \/ s.edge \/ (s.ph = "flight" /\ s.k > Len(s.legs)))
         \cup C("went-on-after-the-end", ~s.late)
    [] e.op = "apexmap" ->
         \* s: the state after the first hop of the same start
         LET a == e.got
             sign == (e.q[3] > 0 => e.leg.a >= 0) /\ (e.q[3] < 0 => e.leg.a <= 0)
             up == s.hop.up
         IN C("apex-map-refuses-exactly-when-no-hop", s.hop.edge \/ (e.found <=> (up /\ sign)))
            \cup (IF e.found /\ up /\ ~s.hop.edge
                  THEN C("apex-map-agrees-with-simulation",
                         NearS(<<a[1], a[2], a[3]>>, SubSeq(s.hop.q, 1, 3), 60))
                       \cup C("apex-map-time", NearI(a[4], s.hop.t, 24))
                       \cup C("apex-map-keeps-energy",
                              NearI(FlightEnergy(e.p, <<a[1], a[2], a[3], 0>>), FlightEnergy(e.p, e.q),
                                    2 * ETol(e.p, e.q)))
                  ELSE {})
    [] e.op = "ttd" ->
         \* open: the time on ground without ends; got: on the stone itself
         LET y == FootY(e.p, e.q, e.leg) - e.h
             x == FootX(e.p, Fall(e.p, e.q, e.open), e.leg)
             in == (~e.haslo \/ e.lo <= x) /\ (~e.hasup \/ x <= e.up)
             edge == (e.haslo /\ NearI(e.lo, x, 12)) \/ (e.hasup /\ NearI(x, e.up, 12))
         IN C("touches-iff-the-foot-can-come-down",
              Abs(y) <= 8 \/ (y < 0 /\ e.q[4] > 0) \/ (e.isopen <=> y >= 0))
            \cup (IF e.isopen
                  THEN C("foot-at-stone-height",
                         NearI(Fall(e.p, e.q, e.open)[2] - TMul(e.p.l0, e.leg.c), e.h, 16 + Up(e.q[4])
                                + 2 * Up(e.open)))
                       \cup C("foot-coming-down", e.open >= 0 /\ Fall(e.p, e.q, e.open)[4] <= 4)
                       \cup C("within-the-stone", edge \/ (e.found <=> in))
                       \cup C("same-time-on-the-stone", e.found => NearI(e.got, e.open, 1))
                  ELSE C("no-time-on-a-part-of-unreachable-ground", ~e.found))
            \cup C("can-touch-iff-time", e.can = e.found)
    [] e.op = "grad" ->
         C("gradient-" \o e.key,
           /\ Len(e.got) = Len(e.want)
           /\ \A k \in 1..Len(e.got) : NearI(e.got[k], e.want[k], e.tol + Abs(e.want[k]) \div 128))
    [] e.op = "none" -> C("refused-together", e.a = e.b)
    [] e.op = "hop" ->    \* states reported along the differentiated hop
         LET z == s.hop IN
         C("hop-refused-exactly-when-no-hop", z.edge \/ (e.found <=> z.up))
         \cup (IF e.found /\ z.up /\ ~z.edge
               THEN C("state-before-landing", NearS(e.td, z.td, 40))
                    \cup C("state-after-lift-off", NearS(e.lo, z.lo, 60))
                    \cup C("next-apex", NearS(e.apex, SubSeq(z.q, 1, 3), 60))
                    \cup C("time-to-apex", NearI(e.t, z.t, 24))
               ELSE {})
    [] e.op = "lin" ->
         \* affine model at its own point, and rows of the slack of each condition
         C("model-exact-at-the-point", NearS(e.at, e.apex, 24) /\ NearI(e.tat, e.t, 16))
         \cup C("number-of-conditions", Len(e.rows) = Len(e.slack))
         \cup C("conditions", \A k \in 1..Len(e.slack) : \E j \in 1..Len(e.rows) :
                  /\ NearI(e.rows[j][5], e.slack[k][5], 40)
                  /\ \A m \in 1..4 : NearI(e.rows[j][m], e.slack[k][m],
                                           e.tol + Abs(e.slack[k][m]) \div 128))
    [] e.op = "same" -> C(e.key, e.a = e.b \/ NearS(e.a, e.b, 40))
    [] OTHER -> {"unexpected:" \o e.op}
NoHop == [up |-> FALSE, edge |-> TRUE, q |-> <<0, 0, 0, 0>>, t |-> 0, td |-> <<0, 0, 0, 0>>, lo |-> <<0, 0, 0, 0>>]
\* the next flight begins at the apex after lift-off, if there is one
Begin(s, q, t, k) ==
  LET more == k <= Len(s.legs)
      gap == IF more THEN FootY(s.p, q, s.legs[k]) ELSE 0
  IN [s EXCEPT !.q = q, !.t = t, !.k = k,
               !.edge = s.edge \/ (more /\ Abs(gap) <= 40),
               !.ph = IF more /\ (gap > 0 \/ Abs(gap) <= 40) THEN "flight" ELSE "over"]
N(s, e) ==
  CASE e.op = "start" ->
         Begin([ph |-> "flight", p |-> e.p, q |-> e.q, t |-> 0, k |-> 1, legs |-> e.legs, leg |-> e.legs[1],
                e0 |-> FlightEnergy(e.p, e.q), edge |-> FALSE, late |-> FALSE, hop |-> NoHop, hops |-> 0],
               e.q, 0, 1)
    [] e.op = "fly" ->
         LET n == Len(e.ys) IN
         [s EXCEPT !.late = s.late \/ s.ph # "flight", !.ph = "stance", !.q = e.ys[n], !.t = e.ts[n],
                   !.leg = e.leg, !.edge = FALSE,
                   !.hop = IF s.hops = 0 THEN [s.hop EXCEPT !.td = e.ys[n]] ELSE s.hop,
                   !.e0 = FlightEnergy(s.p, e.ys[1])]
    [] e.op = "stand" ->
         LET n == Len(e.ys)
             z == St(e.ys[n])
             lg == e.legs[n]
             lifted == NearI(z.r, s.p.l0, 6) /\ Abs(z.a) < 6420
             b == Body(z, lg)
             rise == Apex(s.p, b)
             s1 == [s EXCEPT !.late = s.late \/ s.ph # "stance", !.hops = s.hops + 1,
                     !.hop = IF s.hops > 0 THEN s.hop
                             ELSE [s.hop EXCEPT !.up = lifted /\ b[4] >= 0,
                                   !.edge = Abs(b[4]) <= 24 \/ Abs(Abs(z.a) - 6434) <= 40,
                                   !.lo = b,
                                   !.q = IF lifted /\ b[4] >= 0 THEN rise ELSE s.hop.q,
                                   !.t = IF lifted /\ b[4] >= 0 THEN e.ts[n] + RiseTime(s.p, b) ELSE 0]]
         IN IF lifted /\ (b[4] >= 0 \/ b[4] >= -24)
            THEN Begin([s1 EXCEPT !.edge = Abs(b[4]) <= 24], rise, e.ts[n] + RiseTime(s.p, b), s.k + 1)
            ELSE [s1 EXCEPT !.ph = "done"]
    [] e.op = "nohop" ->   \* the simulation refuses the start
         [ph |-> "done", hop |-> [NoHop EXCEPT !.edge = FALSE]]
    [] OTHER -> s
S0 == 0
=============================================================================

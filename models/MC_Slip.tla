------------------------------ MODULE MC_Slip --------------------------------
(***************************************************************************)
(* All hops from a grid of apexes, with a free choice of the leg angle and *)
(* of any stance motion the energy allows: from a landing the leg leaves   *)
(* the ground in some direction, or lies flat.                             *)
(***************************************************************************)
EXTENDS SlipCore, TLC
CONSTANTS MaxHops, Heights, Speeds
VARIABLES ph, q, leg, hops, t, e0, foot
vars == <<ph, q, leg, hops, t, e0, foot>>
P == [l0 |-> K, g |-> 4 * K, w |-> 40 * K]
Leg(a, s, c) == [a |-> a, s |-> s, c |-> c]
Legs == {Leg(0, 0, K), Leg(2636, 2458, 3277), Leg(-2636, -2458, 3277), Leg(1008, 996, 3973),
         Leg(-1008, -996, 3973)}
\* directions of the velocity at lift-off, leg extending
Ways == {<<K, 0>>, <<3277, 2458>>, <<3277, -2458>>, <<2458, 3277>>, <<2458, -3277>>}
Init == /\ ph = "apex" /\ hops = 0 /\ t = 0 /\ leg = Leg(0, 0, K) /\ foot = 0
        /\ \E h \in Heights, v \in Speeds, d \in {-1, 1} : q = <<0, h, d * v, 0>>
        /\ e0 = FlightEnergy(P, q)
Hop == /\ ph = "apex" /\ hops < MaxHops
       /\ \E l \in {m \in Legs : Steps(P, q, m)} :
            LET d == DropTime(P, q, l)
                z == Fall(P, q, d)
            IN /\ leg' = l /\ q' = z /\ t' = t + d /\ ph' = "landed"
               /\ foot' = FootX(P, z, l)
       /\ UNCHANGED <<hops, e0>>
LiftOff ==
  /\ ph = "landed"
  /\ \E l \in Legs, way \in Ways :
       LET V == TSqrt(2 * (e0 - TMul(P.g, TMul(P.l0, l.c))))
           z == [r |-> P.l0, a |-> l.a, rd |-> TMul(V, way[1]), ad |-> TMul(V, way[2]), f |-> foot]
       IN /\ 2 * (e0 - TMul(P.g, TMul(P.l0, l.c))) > 0
          /\ leg' = l /\ q' = Body(z, l) /\ ph' = "air"
  /\ UNCHANGED <<hops, t, e0, foot>>
Flat == /\ ph = "landed" /\ ph' = "fallen" /\ UNCHANGED <<q, leg, hops, t, e0, foot>>
Rise == /\ ph = "air"
        /\ IF q[4] < 0 THEN ph' = "descending" /\ UNCHANGED <<q, t, hops>>
           ELSE /\ q' = Apex(P, q) /\ t' = t + RiseTime(P, q) /\ ph' = "apex" /\ hops' = hops + 1
        /\ UNCHANGED <<leg, e0, foot>>
Next == Hop \/ LiftOff \/ Flat \/ Rise
Spec == Init /\ [][Next]_vars
EnergyKept == ph # "landed" => Abs(FlightEnergy(P, q) - e0) <= 24 * (hops + 2)
LandingOnTheGround == ph = "landed" =>
  Abs(FootY(P, q, leg)) <= 16 /\ q[4] <= 0 /\ Abs(FlightEnergy(P, q) - e0) <= 24 * (hops + 2)
ApexIsTheTop == ph = "apex" => Abs(q[4]) <= 4
TimeForward == [][t' >= t]_vars
FootPinned == [][ph = "landed" => foot' = foot]_vars
\* both transitions keep the body; the stance motion keeps the energy
LandingKeepsTheBody == ph = "landed" =>
  LET z == Land(P, q, leg) IN
  /\ \A k \in 1..4 : Abs(Body(z, leg)[k] - (IF k = 2 THEN TMul(P.l0, leg.c) ELSE q[k])) <= 12
  /\ Abs(StanceEnergy(P, z, leg) - FlightEnergy(P, q)) <= 80
  /\ z.rd <= 0 \/ TMul(q[3], leg.s) < 0
StanceKeepsEnergy == ph = "landed" =>
  \A dr \in {0, K \div 8, K \div 4} :
    LET z0 == Land(P, q, leg)
        z == [z0 EXCEPT !.r = P.l0 - dr]
    IN Abs(Power(P, z, leg)) <= 200
=============================================================================

----------------------------- MODULE MC_Vehicle -----------------------------
(* Learned vehicles with every small network, driven for Depth steps from    *)
(* rest and from elsewhere: rest is kept, positions that the network does    *)
(* not read only shift, a car at zero speed stays where it is (in the form   *)
(* that subtracts the network at zero speed), positions advance by the mean  *)
(* of both velocities (midpoint forms), and the sign of the pushed control.  *)
EXTENDS SysCore
CONSTANT Depth
VARIABLES sys, x, last, n
Ws == {RInt(-1), R0, R1}
H == <<1, 2>>
E(m, k) == [j \in 1..m |-> IF j = k THEN R1 ELSE R0]
Z(m) == VZero(m)
\* a car (px, py, angle) with inputs (speed, turning): reads (angle, speed)
Car(net, zero) ==
  [kind |-> "vehicle", net |-> net, disc |-> TRUE, xs |-> Z(3), us |-> Z(2), dt |-> H,
   idx |-> <<>>, modes |-> <<>>,
   map |-> [A |-> <<E(5, 1), E(5, 2), <<R0, R0, R1, R0, H>>>>,
            S |-> <<<<R1, R0>>, <<R0, R1>>, <<R0, R0>>>>,
            P1 |-> <<E(5, 3), E(5, 4)>>, b1 |-> Z(2),
            P2 |-> IF zero THEN <<E(5, 3), Z(5)>> ELSE <<Z(5), Z(5)>>,
            b2 |-> Z(2), tol |-> 0]]
\* a body (q, angle, v) with one input: reads (angle, u), drives angle and v
Body(net) ==
  [kind |-> "vehicle", net |-> net, disc |-> TRUE, xs |-> Z(3), us |-> <<H>>, dt |-> H,
   idx |-> <<>>, modes |-> <<>>,
   map |-> [A |-> <<<<R1, R0, H, R0>>, E(4, 2), E(4, 3)>>,
            S |-> <<<<R0, <<1, 4>>>>, <<R1, R0>>, <<R0, R1>>>>,
            P1 |-> <<E(4, 2), E(4, 4)>>, b1 |-> Z(2),
            P2 |-> <<Z(4), Z(4)>>, b2 |-> <<R0, H>>, tol |-> 0]]
Nets == {[W |-> <<<<<<w1, w2>>>>, <<<<v1>>, <<v2>>>>>>, b |-> <<<<b>>, <<d, R1>>>>, c |-> c] :
           w1 \in Ws, w2 \in {RInt(-1), R1}, v1 \in Ws, v2 \in {R1}, b \in {R0, R1}, d \in {R0},
           c \in {R0, H}}
Inputs == IF Len(sys.us) = 2 THEN {<<a, b>> : a \in {R0, R1, H}, b \in Ws} ELSE {<<a>> : a \in {H, R1, RInt(-1)}}
Zero == sys.map.P2[1] # Z(Len(sys.map.P2[1]))
Init ==
  /\ \E net \in Nets : sys \in {Car(net, TRUE), Car(net, FALSE), Body(net)}
  /\ x \in {Z(3), <<R1, RInt(-1), R1>>}
  /\ last = [from |-> x, u |-> sys.us] /\ n = 0
Drive == /\ n < Depth
         /\ \E u \in Inputs :
              /\ x' = Step(sys, x, u) /\ last' = [from |-> x, u |-> u]
         /\ n' = n + 1 /\ UNCHANGED sys
Next == Drive
Spec == Init /\ [][Next]_<<sys, x, last, n>>
RestIsKept == Step(sys, sys.xs, sys.us) = sys.xs
Shift2 == <<RInt(3), RInt(-2), R0>>
Shift1 == <<RInt(3), R0, R0>>
PositionsOnlyShift ==
  \A u \in Inputs : LET d == IF Len(sys.us) = 2 THEN Shift2 ELSE Shift1 IN
    Step(sys, VAdd(x, d), u) = VAdd(Step(sys, x, u), d)
StandingCarStays ==
  (n > 0 /\ Zero /\ Len(sys.us) = 2 /\ last.u[1] = R0) => SubSeq(x, 1, 2) = SubSeq(last.from, 1, 2)
MeanVelocity ==
  (n > 0 /\ Len(sys.us) = 1) => RSub(x[1], last.from[1]) = RMul(RMul(H, H), RAdd(x[3], last.from[3]))
Turning ==
  (n > 0 /\ Len(sys.us) = 2) => x[3] = RAdd(last.from[3], RMul(H, last.u[2]))
\* the car's own controller: |R p|_1 makes the speed positive near the origin
PushCtl == [net |-> [W |-> <<<<Z(3)>>, <<<<R1>>, <<R1>>>>>>, b |-> <<<<R0>>, <<R1, R0>>>>, c |-> R0],
            xs |-> Z(3), us |-> Z(2), lim |-> <<TRUE, TRUE>>, lo |-> <<R0, RInt(-1)>>, up |-> <<R1, R1>>,
            push |-> [lam |-> H, R |-> <<<<R1, R1>>, <<R1, RInt(-1)>>>>]]
SpeedIsPositive ==
  Len(sys.us) = 2 =>
    LET u == Law(PushCtl, x) IN
    /\ (u[1] = R0) = (x[1] = R0 /\ x[2] = R0)
    /\ RLe(R0, u[1]) /\ RLe(u[1], R1)
=============================================================================

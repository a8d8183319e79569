------------------------------- MODULE MC_Body -------------------------------
(* The balances of BodyCore against motions computed forward, on a grid:    *)
(* the pole's motion from the tension in the pole keeps the pole's length,  *)
(* turns the hand's work into energy and is the only motion in balance; a   *)
(* rocket described by its bottom moves as the one described by its centre; *)
(* the balances of every body pin down every entry of the derivative.       *)
EXTENDS BodyCore, TLC
CONSTANT Deep
VARIABLES kind, q, v, u, ms
H == <<1, 2>>
\* offsets (x, y, z) of integer length l
Quads == {<<1, 2, 2, 3>>, <<2, -1, 2, 3>>, <<0, 0, 1, 1>>, <<-2, 1, 2, 3>>, <<0, 3, 4, 5>>}
         \cup (IF Deep THEN {<<2, 3, 6, 7>>, <<-3, 2, 6, 7>>, <<1, -2, 2, 3>>, <<4, 4, 7, 9>>} ELSE {})
Speeds == {<<a, b>> : a \in -1..1, b \in {-1, 0, 2}}
Forces == {<<0, 0, 0>>, <<1, -2, 3>>, <<-1, 1, 12>>}
Dirs == {<<K, 0>>, <<0, K>>, <<0, -K>>, <<3277, 2458>>, <<-2458, 3277>>}   \* <<cos, sin>>
Kinds == {"pole", "rocket2", "unicycle", "car", "pendulum", "quad2d", "quad3d"}
Init == /\ kind \in Kinds
        /\ q \in (IF kind = "pole" THEN Quads ELSE {<<k, 0, 0, 0>> : k \in 1..5})
        /\ v \in Speeds /\ u \in Forces /\ ms \in {1, 2}
Next == FALSE /\ UNCHANGED <<kind, q, v, u, ms>>
Spec == Init /\ [][Next]_<<kind, q, v, u, ms>>
\* ---- the pole, forward: tension per length from the pole's fixed length
Gr == RInt(10)
Me == R1
Ms == RInt(ms)
P3 == <<RInt(q[1]), RInt(q[2]), RInt(q[3])>>
Vz == RNeg(RDiv(RAdd(RMul(P3[1], RInt(v[1])), RMul(P3[2], RInt(v[2]))), P3[3]))
W3 == <<RInt(v[1]), RInt(v[2]), Vz>>
Ud == <<RInt(u[1]), RInt(u[2]), RInt(u[3])>>
Tension ==
  RDiv(RSub(RDiv(Dot(P3, Ud), Me), Dot(W3, W3)),
       RMul(Dot(P3, P3), RAdd(RDiv(R1, Me), RDiv(R1, Ms))))
HandAcc == VSub(VScale(RDiv(R1, Me), VSub(Ud, VScale(Tension, P3))), <<R0, R0, Gr>>)
BallAcc == VSub(VScale(RDiv(Tension, Ms), P3), <<R0, R0, Gr>>)
RelAcc == VSub(BallAcc, HandAcc)
PoleLengthKept == kind = "pole" => RAdd(Dot(W3, W3), Dot(P3, RelAcc)) = R0
Vh == <<R1, RNeg(H), H>>       \* velocity of the hand
WorkIsEnergy ==
  kind = "pole" =>
    RAdd(RAdd(RMul(Me, Dot(Vh, HandAcc)), RMul(Ms, Dot(VAdd(Vh, W3), BallAcc))),
         RMul(Gr, RAdd(RMul(RAdd(Me, Ms), Vh[3]), RMul(Ms, Vz)))) = Dot(Ud, Vh)
Ts(r) == ToTickV(r)
I4(a) == [k \in 1..Len(a) |-> K * a[k]]
PoleP == [ms |-> Ms, me |-> Me, g |-> Gr]
PoleX == Ts(<<P3[1], P3[2]>> \o Vh \o <<RInt(v[1]), RInt(v[2])>>)
PoleD == I4(v) \o Ts(HandAcc) \o Ts(<<RelAcc[1], RelAcc[2]>>)
\* ---- forward derivatives of the others, at angle Dirs
Dir == (CHOOSE f \in [1..5 -> Dirs] : \A a, b \in 1..5 : a # b => f[a] # f[b])[q[1]]
Cc == Dir[1]
Ss == Dir[2]
Pp == [m |-> H, l |-> RInt(2), g |-> Gr, I |-> H, b |-> H]
P3d == [m |-> H, l |-> H, g |-> Gr, k |-> <<1, 4>>, I |-> <<H, R1, <<3, 2>>>>]
GG == 10 * K
X6 == I4(<<1, 2, 0>>) \o I4(v) \o <<K * u[1]>>
U2 == <<K * u[1], K * u[2]>>
Xu == IF kind = "car" THEN I4(<<1, 1, 0>>) \o <<K * v[1]>> ELSE I4(<<1, 1, 0>>)
Uu == I4(v)
Xp == I4(v)
Up == <<K * u[1]>>
FwdQuad2 == SubSeq(X6, 4, 6) \o
  <<-2 * TMul(Ss, U2[1] + U2[2]), 2 * TMul(Cc, U2[1] + U2[2]) - GG, 4 * (U2[1] - U2[2])>>
\* centre of the rocket, then its bottom (length 2, inertia 1/2)
FwdBottom ==
  LET a1 == 2 * (TMul(Cc, U2[1]) - TMul(Ss, U2[2]))
      a2 == 2 * (TMul(Ss, U2[1]) + TMul(Cc, U2[2])) - GG
      al == 2 * U2[1]
      w2 == TMul(X6[6], X6[6])
  IN SubSeq(X6, 4, 6) \o
     <<a1 + TMul(Cc, al) - TMul(Ss, w2), a2 + TMul(Ss, al) + TMul(Cc, w2), al>>
\* level quadrotor with heading Dir: thrust straight up
X12 == I4(<<1, 2, 0, 0, 0, 0>>) \o I4(<<v[1], v[2], 1>>) \o I4(<<v[1], v[2], u[1]>>)
U4 == <<K * u[3], K, 0, K>>
S3 == <<0, 0, Ss>>
C3 == <<K, K, Cc>>
FwdQuad3 ==
  I4(<<v[1], v[2], 1>>) \o I4(<<v[1], v[2], u[1]>>) \o
  <<0, 0, 2 * (K * (u[3] + 2)) - GG>> \o
  <<CMulT(RInt(-1), K * v[2] * u[1]), K * u[1] * v[1] - CMulT(H, K * u[3]),
    RDivI(-K * v[1] * v[2] + (U4[1] - 2 * K) \div 2, 3)>>
Ev(k) ==
  CASE k = "pole" -> [model |-> k, p |-> PoleP, x |-> PoleX, u |-> I4(u), s |-> <<>>, c |-> <<K * q[3]>>]
    [] k = "rocket2" -> [model |-> k, p |-> Pp, x |-> X6, u |-> U2, s |-> <<Ss>>, c |-> <<Cc>>]
    [] k = "quad2d" -> [model |-> k, p |-> Pp, x |-> X6, u |-> U2, s |-> <<Ss>>, c |-> <<Cc>>]
    [] k = "quad3d" -> [model |-> k, p |-> P3d, x |-> X12, u |-> U4, s |-> S3, c |-> C3]
    [] k = "pendulum" -> [model |-> k, p |-> Pp, x |-> Xp, u |-> Up, s |-> <<Ss>>, c |-> <<Cc>>]
    [] OTHER -> [model |-> k, p |-> Pp, x |-> Xu, u |-> Uu, s |-> <<Ss>>, c |-> <<Cc>>]
Fwd(k) ==
  CASE k = "pole" -> PoleD
    [] k = "rocket2" -> FwdBottom
    [] k = "quad2d" -> FwdQuad2
    [] k = "quad3d" -> FwdQuad3
    [] k = "pendulum" -> <<Xp[2], RDivI(Up[1] - 10 * Ss - RDivI(Xp[2], 2), 2)>>
    [] k = "unicycle" -> <<TMul(Uu[1], Cc), TMul(Uu[1], Ss), Uu[2]>>
    [] k = "car" -> <<TMul(Xu[4], Cc), TMul(Xu[4], Ss), Uu[1], Uu[2]>>
Largest(r) == LET S == {Abs(r[k]) : k \in 1..Len(r)} IN CHOOSE a \in S : \A b \in S : b <= a
ForwardIsInBalance == Largest(Imbalance(Ev(kind), Fwd(kind))) <= 48
OnlyForwardIsInBalance ==
  \A k \in 1..Len(Fwd(kind)) : \A s \in {-1, 1} :
    Largest(Imbalance(Ev(kind), [Fwd(kind) EXCEPT ![k] = @ + s * K])) > 96
\* the pendulum's power: torque times rate, less damping
PendulumPower ==
  kind = "pendulum" =>
    LET d == Fwd(kind) IN
    Abs(2 * TMul(Xp[2], d[2]) + TMul(10 * Ss, Xp[2])
        - (TMul(Up[1], Xp[2]) - RDivI(TMul(Xp[2], Xp[2]), 2))) <= 16
=============================================================================

------------------------------ MODULE MC_Blocks ------------------------------
(* The inequalities the documentation gives for each block admit, over a   *)
(* grid of ranges, arguments, binaries and values, exactly its graph.      *)
EXTENDS BlockCore
VARIABLES p, x, y, b
H(n) == Norm(n, 2)
Pts == {H(n) : n \in -4..4}
Rs == {<<H(-2), H(3)>>, <<H(-3), H(-1)>>, <<H(1), H(2)>>, <<H(0), H(2)>>,
       <<H(-2), H(0)>>, <<H(-1), H(-1)>>}
Cs == {H(0), <<1, 4>>, H(1), H(3), H(-1)}
Init == /\ p \in {[lo |-> <<r[1]>>, up |-> <<r[2]>>, c |-> c, zero |-> FALSE,
                   a |-> H(-1), b |-> H(1)] : r \in Rs, c \in Cs}
        /\ x \in Pts /\ y \in {Norm(n, 8) : n \in -32..32} /\ b \in {0, 1}
Next == UNCHANGED <<p, x, y, b>>
Spec == Init /\ [][Next]_<<p, x, y, b>>
B == RInt(b)
L == p.lo[1]
U == p.up[1]
Twosided == L[1] < 0 /\ U[1] > 0
On(kind) == LET g == Graph(kind, p, <<x>>, <<b>>) IN g.ok /\ g.val = y
ProductOk ==
  On("product") <=>
    /\ RLe(RMul(B, L), y) /\ RLe(y, RMul(B, U))
    /\ RSub(RSub(x, y), RMul(RSub(R1, B), U))[1] <= 0
    /\ RSub(RSub(x, y), RMul(RSub(R1, B), L))[1] >= 0
LeakyOk ==
  (Twosided /\ RLe(p.c, R1)) =>
  (On("relu") <=>
    LET cm == RSub(p.c, R1) IN
    /\ RLe(x, y) /\ RLe(RMul(p.c, x), y)
    /\ RAdd(RSub(y, RMul(p.c, x)), RMul(RMul(cm, U), B))[1] <= 0
    /\ RSub(RAdd(RSub(y, x), RMul(RMul(cm, L), B)), RMul(cm, L))[1] <= 0)
\* a slope of one makes every bound of the encoding trivial
LeakyRange == p.c # R1
AbsOk ==
  Twosided =>
  (On("abs") <=>
    /\ RLe(x, y) /\ RLe(RNeg(x), y)
    /\ RLe(RSub(RSub(y, x), RMul(RMul(RInt(2), L), B)), RMul(RInt(-2), L))
    /\ RLe(RSub(RAdd(x, y), RMul(RMul(RInt(2), U), B)), R0))
GradOk ==
  (RLt(p.c, R1)) =>
  (On("gradx") <=>
    LET d == RSub(R1, p.c) IN
    /\ RLe(RSub(RSub(y, x), RMul(RMul(d, L), B)), RNeg(RMul(d, L)))
    /\ RLe(RAdd(RSub(x, y), RMul(RMul(d, U), B)), RMul(d, U))
    /\ RLe(RAdd(RSub(RMul(p.c, x), y), RMul(RMul(d, L), B)), R0)
    /\ RLe(RSub(RSub(y, RMul(p.c, x)), RMul(RMul(d, U), B)), R0))
LeakyAll == LeakyRange => LeakyOk
\* the saturation is the composition of two one-sided ones
Compose ==
  LET z == RMax(x, p.a) IN RMin(z, p.b) = SatVal(p, <<x>>)
=============================================================================

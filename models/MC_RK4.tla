------------------------------- MODULE MC_RK4 --------------------------------
(***************************************************************************)
(* Exhaustive: the scheme reproduces polynomial flows of degree <= 4 and   *)
(* the degree-4 Taylor polynomial of linear flows, for every step count   *)
(* and step size in the grid, one step per transition.                    *)
(***************************************************************************)
EXTENDS RK4Core
VARIABLES deg, dt, x0, n, x
D(k) == \* states: time, value; value' = time^k for k = 0..2 (via Q), or 1
  [A |-> <<<<R0, R0>>, <<IF k = 1 THEN R1 ELSE R0, R0>>>>,
   B |-> <<<<R0>>, <<IF k = 3 THEN R1 ELSE R0>>>>,
   Q |-> <<<<>>, IF k = 2 THEN <<<<R1, R0>>, <<R0, R0>>>> ELSE <<>>>>,
   c |-> <<R1, IF k = 0 THEN R1 ELSE R0>>]
U == <<<<3, 2>>>>
Init == /\ deg \in 0..3 /\ dt \in {<<1, 1>>, <<1, 2>>, <<3, 2>>}
        /\ x0 \in {<<<<a, 2>>, <<b, 1>>>> : a \in {-3, -1, 1, 3}, b \in {-1, 0, 2}}
        /\ n = 0 /\ x = x0
Next == /\ n < 4 /\ n' = n + 1 /\ x' = RkStep(D(deg), x, U, dt)
        /\ UNCHANGED <<deg, dt, x0>>
Spec == Init /\ [][Next]_<<deg, dt, x0, n, x>>
T == RMul(<<n, 1>>, dt)
Pw(a, k) == IF k = 0 THEN R1 ELSE IF k = 1 THEN a ELSE IF k = 2 THEN RMul(a, a)
            ELSE RMul(a, RMul(a, a))
Anti(a) == IF deg = 3 THEN RMul(U[1], a) ELSE RDiv(Pw(a, deg + 1), <<deg + 1, 1>>)
TimeAdvances == x[1] = RAdd(x0[1], T)
PolynomialFlowExact == x[2] = RAdd(x0[2], RSub(Anti(x[1]), Anti(x0[1])))
\* linear flow y' = a y + u: degree-4 Taylor polynomial in one step
Lin(a) == [A |-> <<<<a>>>>, B |-> <<<<R1>>>>, Q |-> <<<<>>>>, c |-> <<R0>>]
P4(z) == LET z2 == RMul(z, z) z3 == RMul(z2, z) z4 == RMul(z2, z2) IN
  RAdd(RAdd(R1, z), RAdd(RDiv(z2, <<2, 1>>), RAdd(RDiv(z3, <<6, 1>>), RDiv(z4, <<24, 1>>))))
LinearTaylor ==
  \A a \in {<<1, 1>>, <<-2, 1>>, <<1, 2>>} : \A y \in {R1, <<-3, 1>>} :
    RkStep(Lin(a), <<y>>, <<R0>>, dt)[1] = RMul(P4(RMul(a, dt)), y)
=============================================================================

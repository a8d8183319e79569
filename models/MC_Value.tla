------------------------------ MODULE MC_Value ------------------------------
(* Why the derivatives demanded of the recomputed value are the right      *)
(* ones: two-variable linear programs  min c x, rows a_k x <= b_k.  At an  *)
(* optimal vertex with a nonsingular active pair the multipliers solving   *)
(* A'l = c give value l b there, are non-positive at an optimum, and       *)
(* bound the value for every other right hand side from below; values from *)
(* the same active set are exact while that vertex stays feasible.         *)
EXTENDS Rat
VARIABLES c, A, b
I2 == {-1, 1, 2}
Q2(n) == <<n, 1>>
Init == /\ c \in {<<Q2(p), Q2(q)>> : p \in {-2, 1}, q \in {-1, 3}}
        /\ A \in {<< <<Q2(p), Q2(q)>>, <<Q2(r), Q2(s)>>, <<Q2(-1), R0>>, <<R0, Q2(-1)>>,
                    <<R1, R1>> >> : p \in {-1, 2}, q \in {-1, 2}, r \in {1}, s \in {-2, 1}}
        /\ b \in {<<Q2(p), Q2(q), Q2(r), R1, Q2(4)>> : p \in {0, 2}, q \in 0..2, r \in {1}}
Next == UNCHANGED <<c, A, b>>
Spec == Init /\ [][Next]_<<c, A, b>>
Det(p, q) == RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))
Sol(p, q, u, v) == LET d == Det(p, q) IN
  <<RDiv(RSub(RMul(u, q[2]), RMul(v, p[2])), d), RDiv(RSub(RMul(p[1], v), RMul(q[1], u)), d)>>
Pairs == {<<j, k>> \in (1..5) \X (1..5) : j < k /\ Det(A[j], A[k])[1] # 0}
Vertex(P, rhs) == Sol(A[P[1]], A[P[2]], rhs[P[1]], rhs[P[2]])
Feas(x, rhs) == \A k \in 1..5 : RLe(Dot(A[k], x), rhs[k])
Vs(rhs) == {P \in Pairs : Feas(Vertex(P, rhs), rhs)}
Val(P, rhs) == Dot(c, Vertex(P, rhs))
Best(rhs) == LET T == TLCEval([P \in Vs(rhs) |-> Val(P, rhs)]) IN
             {P \in DOMAIN T : \A Q \in DOMAIN T : RLe(T[P], T[Q])}
Mult(P) == Sol(<<A[P[1]][1], A[P[2]][1]>>, <<A[P[1]][2], A[P[2]][2]>>, c[1], c[2])
Bump == {[b EXCEPT ![k] = RAdd(b[k], d)] : k \in 1..5, d \in {<<1, 2>>, R1}}
Strong == \A P \in Best(b) : LET l == Mult(P) IN
            Val(P, b) = RAdd(RMul(l[1], b[P[1]]), RMul(l[2], b[P[2]]))
Signs == Vs(b) # {} => \E P \in Best(b) : LET l == Mult(P) IN RSign(l[1]) <= 0 /\ RSign(l[2]) <= 0
Others ==
  LET B == Best(b) IN
  \A r \in Bump : LET BR == Best(r) IN
    \A P \in B : LET l == Mult(P) IN
      (RSign(l[1]) <= 0 /\ RSign(l[2]) <= 0) =>
        \* from below for every other right hand side, exact while feasible
        /\ \A Q \in BR :
             RLe(RAdd(RMul(l[1], r[P[1]]), RMul(l[2], r[P[2]])), Val(Q, r))
        /\ Feas(Vertex(P, r), r) => P \in BR
=============================================================================

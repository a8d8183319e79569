------------------------------ MODULE MC_Grads ------------------------------
(* The gradient sets are subgradients of the norms, everywhere and only.   *)
EXTENDS GradCore
VARIABLES x, y
Vs == {<< -1, 1>>, << -1, 2>>, <<0, 1>>, <<1, 2>>, <<1, 1>>}
Init == /\ x \in {<<p, q>> : p \in Vs, q \in Vs}
        /\ y \in {<<p, q>> : p \in Vs, q \in Vs}
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
One == \A g \in L1Grads(x, R0, {<<1, 2>>}, 2) : Supports(<<L1(x), L1(y)>>, x, y, g)
Inf == \A g \in LInfGrads(x, R0) : Supports(<<LInf(x), LInf(y)>>, x, y, g)
Count == Cardinality(L1Grads(x, R0, {}, 2)) = PowN(2, L1Kinks(x, R0))
\* some reported gradient is exact along y: directional derivative is the max
Dir == LET t == VScale(<<1, 4>>, VSub(y, x))
           z == VAdd(x, t)
       IN (\A k \in {1, 2} : x[k][1] # 0 => RSign(z[k]) = RSign(x[k])) =>
          \E g \in L1Grads(x, R0, {}, 2) : L1(z) = RAdd(L1(x), Dot(g, t))
=============================================================================

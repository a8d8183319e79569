------------------------------ MODULE MC_Hybrid ------------------------------
(* The documented rows (slack = binary times point, sum of binaries one)   *)
(* admit exactly the points of a selected mode and force its image; over a *)
(* grid of one-dimensional systems with one or two modes, with input.      *)
EXTENDS HybridCore
VARIABLES sys, z, s, g
H(n) == Norm(n, 2)
Iv(a, b) == [P |-> <<<<R1>>, <<H(-2)>>>>, q |-> <<b, RNeg(a)>>]
Mode(a, b, k, c) == [A |-> <<<<k>>>>, c |-> <<c>>, P |-> Iv(a, b).P, q |-> Iv(a, b).q]
Sys == { <<Mode(H(-2), b, k, R1), Mode(a, H(2), R1, H(-1))>> :
            a \in {H(-1), H(0), H(1)}, b \in {H(-1), H(0), H(1)}, k \in {R0, H(1)} }
Grid == {H(n) : n \in -3..3}
Inner == {H(n) : n \in -2..2}
Init == /\ sys \in Sys /\ z \in {<<x>> : x \in Grid}
        /\ s \in {<< <<a>>, <<b>> >> : a \in Inner, b \in Inner}
        /\ g \in {<<a, b>> : a \in {R0, R1}, b \in {R0, R1}}
Next == UNCHANGED <<sys, z, s, g>>
Spec == Init /\ [][Next]_<<sys, z, s, g>>
Lo == <<H(-2)>>
Up == <<H(2)>>
Sel == {k \in 1..2 : g[k] = R1}
Sound == EncRows(sys, Lo, Up, z, s, g) =>
  /\ Cardinality(Sel) = 1
  /\ \E k \in Sel : InMode(sys[k], z) /\ EncOut(sys, s, g) = Image(sys[k], z)
Complete == (Cardinality(Sel) = 1 /\ \A k \in Sel : InMode(sys[k], z)) =>
  EncRows(sys, Lo, Up, z, [k \in 1..2 |-> VScale(g[k], z)], g)
\* simulation is one of the possible results, and stops outside
Simulated == Modes(sys, z) # {} =>
  LET r == Run(sys, <<z>>, 1) IN Len(r) = 2 /\ r[2] \in Images(sys, z)
Stops == Modes(sys, z) = {} => Run(sys, <<z>>, 3) = <<z>>
=============================================================================

------------------------------- MODULE MC_Cost -------------------------------
(* Cost-to-go satisfies the recursion and the partition covers without     *)
(* overlap, on small grids.                                                *)
EXTENDS CostCore
VARIABLES sys, x, T, goal, box, p
H(n) == Norm(n, 2)
Mode(a, b, k, c) == [A |-> <<<<k>>>>, c |-> <<c>>, P |-> <<<<R1>>, <<RNeg(R1)>>>>, q |-> <<b, RNeg(a)>>]
Sys == {<<Mode(H(-2), b, k, c), Mode(b, H(2), k2, H(-1))>> :
          b \in {H(-1), H(0)}, k \in {H(-1), H(1), H(2)}, k2 \in {H(0), H(1)}, c \in {H(0), H(1)}}
Box == {[lo |-> <<H(-2), R0>>, up |-> <<H(2), R1>>, n |-> <<a, b>>, d |-> <<d, d>>] :
          a \in {1, 2, 4}, b \in {1, 2}, d \in {R0, <<1, 4>>}}
B0 == [lo |-> <<R0>>, up |-> <<R1>>, n |-> <<1>>, d |-> <<R0>>]
Init == /\ \/ /\ sys \in Sys /\ x \in {<<H(n)>> : n \in -2..2} /\ T \in 0..3
              /\ goal \in {<<>>, <<R0>>} /\ box = B0 /\ p = <<R0, R0>>
           \/ /\ box \in Box /\ p \in {<<Norm(m, 4), Norm(n, 4)>> : m \in -4..4, n \in 0..4}
              /\ sys = <<>> /\ x = <<R0>> /\ T = 0 /\ goal = <<>>
Next == UNCHANGED <<sys, x, T, goal, box, p>>
Spec == Init /\ [][Next]_<<sys, x, T, goal, box, p>>
Cst == [Q |-> <<<<R1>>>>, w |-> <<H(1)>>, c |-> R1]
Recursion == sys # <<>> =>
  LET xs == Traj(sys, goal, <<x>>, T)
      c == CostsToGo(Cst, xs)
  IN /\ c[Len(xs)] = Stage(Cst, xs[Len(xs)])
     /\ \A k \in 1..(Len(xs) - 1) : c[k] = RAdd(Stage(Cst, xs[k]), c[k + 1])
     /\ \A k \in 1..(Len(xs) - 1) : xs[k + 1] \in Images(sys, xs[k])
     /\ ~LeftAt(sys, goal, xs, T) => (Len(xs) = T + 1 \/ xs[Len(xs)] = goal)
In(f) == InBox(p, CellLo(box, f), CellUp(box, f))
Strict(f) == \A j \in 1..2 : RLt(CellLo(box, f)[j], p[j]) /\ RLt(p[j], CellUp(box, f)[j])
Covers == (sys = <<>> /\ InBox(p, box.lo, box.up)) => \E f \in CellIdx(box) : In(f)
NoOverlap == (sys = <<>> /\ box.d[1] = R0) => Cardinality({f \in CellIdx(box) : Strict(f)}) <= 1
CentreInside == sys = <<>> => \A f \in CellIdx(box) : InBox(Centre(box, f), CellLo(box, f), CellUp(box, f))
=============================================================================

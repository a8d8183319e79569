------------------------------- MODULE MC_Unit -------------------------------
(* Big-M encoding of one (leaky) ReLU unit, over all ranges, slopes,       *)
(* arguments and outputs of a grid: feasible with some binary iff the      *)
(* output is the unit's value and the argument lies in the range.          *)
EXTENDS Rat
VARIABLES c, lo, up, v, y
G(n) == {Norm(k, 2) : k \in (0 - n)..n}
Init == /\ c \in {<<0, 1>>, <<1, 4>>, <<1, 1>>, <<3, 2>>}
        /\ lo \in G(3) /\ up \in G(3) /\ RLe(lo, up)
        /\ v \in G(5) /\ y \in {Norm(k, 8) : k \in -18..18}
Next == UNCHANGED <<c, lo, up, v, y>>
Spec == Init /\ [][Next]_<<c, lo, up, v, y>>
c1 == RSub(R1, c)
\* y >= v, y >= c v, y <= c v + (1-c) up beta, y <= v - (1-c) lo (1-beta)
BigM(b) ==
  LET u == RMul(RMul(c1, up), RInt(b))
      w == RMul(RMul(c1, lo), RInt(1 - b))
      le(p, q) == IF RLe(c, R1) THEN RLe(p, q) ELSE RLe(q, p)
  IN /\ le(v, y) /\ le(RMul(c, v), y)
     /\ le(y, RAdd(RMul(c, v), u)) /\ le(y, RSub(v, w))
Fixed(b) ==     \* always active / always inactive
  /\ RLe(lo, v) /\ RLe(v, up)
  /\ IF lo[1] >= 0 THEN b = 1 /\ y = v ELSE b = 0 /\ y = RMul(c, v)
Feas(b) == IF lo[1] < 0 /\ up[1] > 0 THEN BigM(b) ELSE Fixed(b)
Value == IF v[1] >= 0 THEN v ELSE RMul(c, v)
Exact == (\E b \in {0, 1} : Feas(b)) =>
            y = Value
Complete == (RLe(lo, v) /\ RLe(v, up) /\ y = Value) => \E b \in {0, 1} : Feas(b)
InRange == c # R1 => ((\E b \in {0, 1} : Feas(b)) => RLe(lo, v) /\ RLe(v, up))
BinaryTells == c # R1 => \A b \in {0, 1} : Feas(b) => (v[1] > 0 => b = 1) /\ (v[1] < 0 => b = 0)
=============================================================================

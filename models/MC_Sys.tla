------------------------------- MODULE MC_Sys -------------------------------
(* Every one-unit plant and controller with weights in {-1,0,1}: the pinned *)
(* forms keep the equilibrium, and the documented big-M encoding of the     *)
(* saturated closed loop admits, at each state of the box, exactly the      *)
(* control and successor of the closed loop.                                *)
EXTENDS SysCore
CONSTANT Deep
VARIABLES sys, ctl
Ws == {RInt(-1), R0, R1}
Kinds == {"upinned", "second", "residue"}
Net1(w, b, v, d, c) == [W |-> <<<<w>>, <<<<v>>>>>>, b |-> <<<<b>>, <<d>>>>, c |-> c]
Cs == {R0, <<1, 2>>}
\* plants: state x (or q, v), one input; one hidden unit
XS(k) == IF k = "upinned" THEN <<R1>> ELSE <<R1, R0>>
NIns(k) == IF k = "second" THEN 3 ELSE 2
Vecs(n) == [1..n -> Ws]
Rows(k) == IF k = "second" THEN {<<R1, a, b>> : a \in {RInt(-1), R1}, b \in {RInt(-1), R1}}
           ELSE {<<a, b>> : a \in Ws, b \in {RInt(-1), R1}}
Init ==
  /\ \E k \in Kinds : \E w \in Rows(k) : \E b \in {R0, R1} : \E v \in {RInt(-1), R1} :
       \E c \in Cs : \E d \in (IF k = "upinned" THEN BOOLEAN ELSE {TRUE}) :
       sys = [kind |-> k, net |-> [W |-> <<<<w>>, <<<<v>>>>>>, b |-> <<<<b>>, <<R1>>>>, c |-> c],
              disc |-> (d \/ k # "upinned"), xs |-> XS(k), us |-> <<<<1, 2>>>>, dt |-> <<1, 2>>,
              idx |-> <<2>>, modes |-> <<>>]
  /\ \E w \in (IF Deep THEN Ws ELSE {RInt(-1), R1}) : \E b \in (IF Deep THEN {R0, R1} ELSE {R0}) : \E v \in {RInt(-1), R1} : \E l \in {<<RInt(-1), R1>>, <<R0, <<1, 2>>>>, <<<<1, 2>>, RInt(3)>>} :
       ctl = [net |-> [W |-> <<<<(IF Len(sys.xs) = 1 THEN <<w>> ELSE <<w, RInt(1)>>)>>, <<<<v>>>>>>,
                       b |-> <<<<b>>, <<R0>>>>, c |-> R0],
              xs |-> sys.xs, us |-> sys.us, lim |-> <<TRUE>>, lo |-> <<l[1]>>, up |-> <<l[2]>>]
Next == FALSE /\ UNCHANGED <<sys, ctl>>
Spec == Init /\ [][Next]_<<sys, ctl>>
\* ---- pinned forms
KeepsEquilibrium == Step(sys, sys.xs, sys.us) = Rest(sys)
LawAtRest == Law(ctl, ctl.xs) = <<RClamp(ctl.us[1], ctl.lo[1], ctl.up[1])>>
InsideLimits == \A x \in {<<a>> : a \in {RInt(-2), R0, R1}} :
  Len(sys.xs) = 1 => LET u == Law(ctl, x)[1] IN RLe(ctl.lo[1], u) /\ RLe(u, ctl.up[1])
\* ---- the encoding: big-M unit with interval bounds
UnitRows(c, lo, up, a, s, b) ==   \* a pre-activation, s output
  IF RLe(R0, lo) THEN s = a /\ b = R1
  ELSE IF RLe(up, R0) THEN s = RMul(c, a) /\ b = R0
  ELSE /\ RLe(a, s) /\ RLe(RMul(c, a), s)
       /\ RLe(s, RSub(RMul(c, a), RMul(RMul(RSub(c, R1), up), b)))
       /\ RLe(s, RSub(a, RMul(RMul(RSub(R1, c), lo), RSub(R1, b))))
BoxLo == VAdd(sys.xs, [k \in 1..Len(sys.xs) |-> RInt(-1)])
BoxUp == VAdd(sys.xs, [k \in 1..Len(sys.xs) |-> RInt(1)])
PreLo(net, lo, up) == RAdd(RowLo(net.W[1][1], lo, up), net.b[1][1])
PreUp(net, lo, up) == RAdd(RowUp(net.W[1][1], lo, up), net.b[1][1])
Grid == {<<k, 2>> : k \in {-7, -5, -3, -1, 1, 3, 5, 7}} \cup {RInt(k) : k \in -4..4}
Bits == {R0, R1}
\* saturation rows for pre in [plo, pup] (both limits may be met)
SatAdmits(plo, pup, lo, up, pre, u) ==
  IF RLe(pup, lo) THEN u = lo
  ELSE IF RLe(up, plo) THEN u = up
  ELSE u = RClamp(pre, lo, up)
EncodedControls(x) ==
  LET n == ctl.net
      l == PreLo(n, BoxLo, BoxUp)
      h == PreUp(n, BoxLo, BoxUp)
      a == Lin(n, 1, x)[1]
      off == RSub(ctl.us[1], Out(n, ctl.xs)[1])
      post == {s \in Grid : \E b \in Bits : UnitRows(n.c, l, h, a, s, b)}
      pre == {RAdd(RMul(n.W[2][1][1], s), RAdd(n.b[2][1], off)) : s \in post}
      ends == {RAdd(RMul(n.W[2][1][1], q), RAdd(n.b[2][1], off)) : q \in {Act(n.c, l), Act(n.c, h)}}
  IN {u \in {RClamp(p, ctl.lo[1], ctl.up[1]) : p \in pre} :
        \E p \in pre : SatAdmits(SetMin(ends), SetMax(ends), ctl.lo[1], ctl.up[1], p, u)}
\* The plant unit at (x, u): its rows admit one value; the successor follows
EncodedUnit(x, u, s) ==
  LET z == NetIn(sys, x, <<u>>)
      zl == NetIn(sys, BoxLo, ctl.lo)
      zu == NetIn(sys, BoxUp, ctl.up)
      n == sys.net
  IN \E b \in Bits : UnitRows(n.c, PreLo(n, zl, zu), PreUp(n, zl, zu), Lin(n, 1, z)[1], s, b)
States == {VAdd(sys.xs, d) : d \in (IF Len(sys.xs) = 1 THEN {<<a>> : a \in Ws} ELSE {<<a, b>> : a \in Ws, b \in Ws})}
LoopEncodingExact ==
  \A x \in States :
    /\ EncodedControls(x) = {Law(ctl, x)[1]}
    /\ LET u == Law(ctl, x)[1]
           a == Lin(sys.net, 1, NetIn(sys, x, <<u>>))[1]
           G == {Act(sys.net.c, a), RAdd(a, <<1, 2>>), RSub(a, <<1, 2>>), R0, RMul(<<1, 2>>, a), a}
       IN {s \in G : EncodedUnit(x, u, s)} = {Act(sys.net.c, a)}
=============================================================================

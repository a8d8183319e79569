------------------------------- MODULE MC_Bar -------------------------------
(* What a barrier is for.  The system is the most general one that passes  *)
(* the one-step certificate on the state set.  From a state with a         *)
(* nonnegative barrier no behaviour reaches the unsafe set or the border   *)
(* when the region certificates hold there, and the barrier decays no      *)
(* faster than the given rate.                                             *)
EXTENDS BarCore
CONSTANT Deep
VARIABLES B, eps, unsafe, x, h0, rate, tab, ok
vars == <<B, eps, unsafe, x, h0, rate, tab, ok>>
H == IF Deep THEN 8 ELSE 4
X == {<<Norm(k, 2)>> : k \in -H..H}
Ws == {RInt(-1), R1} \cup (IF Deep THEN {<<1, 2>>} ELSE {})
Cand ==
  {[net |-> [W |-> <<<<<<w>>>>, <<<<v>>>>>>, b |-> <<<<b>>, <<R0>>>>, c |-> c],
    xs |-> <<s>>, c |-> d] :
     w \in Ws, v \in Ws, b \in {RInt(-1), R0, R1}, c \in {RInt(-1), R0, <<1, 2>>},
     s \in {R0, R1}, d \in {<<1, 2>>, R1}}
Border == {<<Norm(-H, 2)>>, <<Norm(H, 2)>>}
Box1(a, b) == <<[P |-> <<<<RInt(-1)>>, <<R1>>>>, q |-> <<RNeg(a), b>>]>>
Regions == {Box1(R1, RInt(2)), Box1(RInt(-2), RInt(-1)),
            Box1(RInt(-2), Norm(-3, 2)) \o Box1(Norm(3, 2), RInt(2))}
Bad(u) == {q \in X : InRegion(u, q, R0)}
Init ==
  /\ B \in Cand
  /\ unsafe \in Regions
  /\ tab = TLCEval([q \in X |-> Bar(B, q)])
  /\ \A q \in Bad(unsafe) \cup Border : tab[q][1] < 0   \* region certificates
  /\ eps \in {R0, <<1, 2>>, R1}
  /\ ok = TLCEval([q \in X |-> {y \in X : BarGap(B, eps, q, y)[1] <= 0}])
  /\ x \in {q \in X : tab[q][1] >= 0}
  /\ h0 = tab[x] /\ rate = R1
Next ==
  /\ x' \in ok[x]
  /\ rate' = IF rate[2] < 64 THEN RMul(rate, RSub(R1, eps)) ELSE rate
  /\ UNCHANGED <<B, eps, unsafe, h0, tab, ok>>
Spec == Init /\ [][Next]_vars
StaysSafe == x \notin Bad(unsafe) /\ x \notin Border
SuperlevelKept == tab[x][1] >= 0
DecayBound == RLe(RMul(rate, h0), tab[x])
RestIsSafe == tab[B.xs] = B.c /\ B.xs \notin Bad(unsafe)
=============================================================================

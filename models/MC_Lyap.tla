------------------------------ MODULE MC_Lyap ------------------------------
(* What the certificates are for.  The system is the most general one that *)
(* passes the decrease certificate: from x any y of the state set with a   *)
(* nonpositive decrease quantity.  For every one-unit candidate function   *)
(* that passes the positivity certificate, every behaviour reaches the     *)
(* equilibrium, the exponential rate bounds the value at every step, and a *)
(* sublevel set whose level no border or escaping state lies under is kept.*)
EXTENDS LyapCore
CONSTANT Deep
VARIABLES L, type, x, v0, rate, low, tab, ok
vars == <<L, type, x, v0, rate, low, tab, ok>>
Ws == {RInt(-1), R1} \cup (IF Deep THEN {<<1, 2>>} ELSE {})
H == IF Deep THEN 6 ELSE 4
X == {<<Norm(k, 2)>> : k \in -H..H}
Lo == Norm(-H, 2)
Up == Norm(H, 2)
Eps == <<1, 4>>      \* positivity margin and asymptotic margin
Rho == <<1, 2>>      \* exponential rate
Cand ==
  {[net |-> [W |-> <<<<<<w>>>>, <<<<v>>>>>>, b |-> <<<<b>>, <<d>>>>, c |-> c],
    xs |-> <<s>>, lam |-> l, R |-> <<<<r>>>>] :
     w \in Ws, v \in Ws, b \in {RInt(-1), R0, R1}, d \in {R0}, c \in {R0, <<1, 2>>},
     s \in {R0, R1}, l \in {<<1, 2>>, R1, RInt(2)}, r \in {R1, RInt(-2)}}
Positive(l) == \A q \in X : PosGap(l, Eps, q)[1] <= 0
Certified(l, t, q, y) ==
  DecGap(l, t, IF t = "asymp" THEN Eps ELSE Rho, q, y)[1] <= 0
\* the certified level: no border state lies under it
Border == {<<Lo>>, <<Up>>}
Level == SetMin({tab[q] : q \in Border})
Init ==
  /\ L \in {l \in Cand : Positive(l)}
  /\ type \in {"lower", "asymp"}
  /\ tab = TLCEval([q \in X |-> Value(L, q)])
  /\ ok = TLCEval([q \in X |-> {y \in X : Certified(L, type, q, y)}])
  /\ x \in X
  /\ v0 = tab[x] /\ rate = R1 /\ low = RLt(v0, Level)
Next ==
  /\ x # L.xs
  /\ x' \in ok[x]
  /\ rate' = IF type = "lower" /\ rate[2] < 256 THEN RMul(rate, RSub(R1, Rho)) ELSE rate
  /\ UNCHANGED <<L, type, v0, low, tab, ok>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ZeroAtRest == tab[L.xs] = R0
PositiveElsewhere == x # L.xs => tab[x][1] > 0
RateBound == type = "lower" => RLe(tab[x], RMul(rate, v0))
SublevelKept == low => /\ x \notin Border
                       /\ RLt(tab[x], Level)
Converges == <>(x = L.xs)
=============================================================================

------------------------------- MODULE MC_Cuts -------------------------------
(* All units with two inputs over a small parameter set: every cut is valid*)
(* over the box, and the separable minimum is the minimum over index sets. *)
EXTENDS CutCore
VARIABLES u, x, beta
Ws == {<< -1, 1>>, <<0, 1>>, <<3, 2>>}
Init == /\ u \in {[c |-> c, w |-> <<a, b>>, b |-> d, lo |-> <<<< -1, 1>>, l>>,
                   up |-> <<<<1, 2>>, <<1, 1>>>>] :
                   c \in {<<0, 1>>, <<1, 4>>}, a \in Ws, b \in Ws,
                   d \in {<< -1, 2>>, <<0, 1>>, <<1, 1>>}, l \in {<< -2, 1>>, <<1, 2>>}}
        /\ x \in {<<p, q>> : p \in {<< -1, 1>>, <<0, 1>>, <<1, 2>>},
                             q \in {<< -2, 1>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}}
        /\ beta \in {<<0, 1>>, <<1, 4>>, <<1, 1>>}
Next == UNCHANGED <<u, x, beta>>
Spec == Init /\ [][Next]_<<u, x, beta>>
Sets == SUBSET {1, 2}
Valid == InBox(x, u.lo, u.up) => \A I \in Sets : CutValidAt(u, Cut(u, I), x)
Separable == /\ \A I \in Sets : RLe(MinRhs(u, x, beta), CutRhs(Cut(u, I), x, beta))
             /\ \E I \in Sets : MinRhs(u, x, beta) = CutRhs(Cut(u, I), x, beta)
=============================================================================

------------------------------ MODULE MC_Params ------------------------------
(* Flattening and unflattening are inverse, for every small architecture.  *)
EXTENDS ParamCore
VARIABLES w, bias
Ws == UNION {[1..n -> 1..3] : n \in 2..4}
Init == w \in Ws /\ bias \in BOOLEAN
Next == UNCHANGED <<w, bias>>
Spec == Init /\ [][Next]_<<w, bias>>
Vec == [k \in 1..NPar(w, bias) |-> <<k, 1>>]
Ls == Unflat(Vec, w, bias, 1)
RoundTrip ==
  /\ Len(Ls) = Len(w) - 1
  /\ \A k \in 1..Len(Ls) : Len(Ls[k].W) = w[k + 1] /\ Len(Ls[k].W[1]) = w[k]
  /\ Flatten([k \in 1..Len(Ls) |-> Ls[k].W], [k \in 1..Len(Ls) |-> Ls[k].b], bias) = Vec
=============================================================================

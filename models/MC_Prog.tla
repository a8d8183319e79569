------------------------------- MODULE MC_Prog -------------------------------
(* Every short history of calls: the matrices and the solver's model admit *)
(* the same points, a relaxed program admits every point of the binary one,*)
(* and what is added later only ever removes points.                       *)
EXTENDS ProgCore
CONSTANTS MaxOps
VARIABLES s, n, prev
H == <<1, 2>>
Kinds == {"c", "b", "r"}
B1 == \* y = s with s = x if b = 1, s = 0 if b = 0, x in [-1, 1]; own bounds implied
  [ns |-> 1, nb |-> 1,
   Gi |-> <<<<R0, R1, << -1, 1>>>>, <<R0, << -1, 1>>, << -1, 1>>>>,
            <<R1, << -1, 1>>, R1>>, << << -1, 1>>, R1, R1>>,
            <<R1, R0, R0>>, << << -1, 1>>, R0, R0>>>>,
   h |-> <<R0, R0, R1, R1, R1, R1>>,
   Ge |-> <<>>, e |-> <<>>, Go |-> <<<<R0, R1, R0>>>>, o |-> <<R0>>,
   xlo |-> << << -1, 1>> >>, xup |-> <<R1>>, slo |-> << << -1, 1>> >>, sup |-> <<R1>>,
   blo |-> <<>>, bup |-> <<>>]
B2 == [B1 EXCEPT !.blo = <<R1>>, !.Gi = Append(@, <<R0, R0, << -1, 1>>>>), !.h = Append(@, << -1, 1>>)]
Init == s = AddVars(Empty, "c", << << << -1, 1>> >>, <<>> >>, << <<RInt(2)>>, <<>> >>) /\ n = 0 /\ prev = s
Ids == 1..Len(s.vars)
Do(x) == s' = x /\ prev' = s /\ n' = n + 1
CV == Cont(s)
Next ==
  /\ n < MaxOps
  /\ \/ \E kd \in Kinds : \E lo \in {<<>>, <<R0>>} : Len(s.vars) < 3 /\
          Do(AddVars(s, kd, <<IF kd = "c" THEN lo ELSE <<R0>> >>, <<IF kd = "c" THEN lo ELSE <<R1>> >>))
     \/ \E k, j \in Ids : \E sn \in {"<", ">", "="} : \E a \in {R1, << -1, 1>>} :
          k < j /\ Do(AddRow(s, <<<<k, a>>, <<j, R1>>>>, sn, H))
     \/ \E k \in CV : \E B \in {B1, B2} : \E kd \in {"b", "r"} : Len(s.vars) <= 3 /\
          Do(AddBlock(s, B, <<k>>, <<>>, <<>>, kd))
     \/ \E k \in CV : \E y \in CV : k # y /\ Len(s.vars) <= 3 /\ Do(AddBlock(s, B1, <<k>>, <<y>>, <<>>, "r"))
     \/ Do(Unrelax(s))
Spec == Init /\ [][Next]_<<s, n, prev>>
Vals == {<< -1, 1>>, R0, H, R1}
Points == [1..Len(s.vars) -> Vals]
Same == \A p \in Points : KeptOk(s, p) <=> SolverOk(s, p)
\* un-relaxing and adding constraints only remove points; adding variables
\* leaves the projection
Shrinks == [][\A p \in [1..Len(s'.vars) -> Vals] : SolverOk(s', p) => SolverOk(s, p)]_<<s, n, prev>>
Relaxed == \A p \in Points : SolverOk(Unrelax(s), p) => SolverOk(s, p)
=============================================================================

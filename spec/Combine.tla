------------------------------ MODULE Combine ------------------------------
(* A pool of blocks; every call makes a new one or changes one, and every  *)
(* observed block must be what the calls so far made it.                   *)
EXTENDS CombineCore, TraceLib
SameB(obs, b, n) ==   \* an absent bound and an unbounded one mean the same
  \A k \in 1..n : (IF obs = <<>> THEN <<>> ELSE obs[1][k]) = (IF b = <<>> THEN <<>> ELSE b[1][k])
Sizes(B) == <<NOut(B), NIneq(B), NEq(B), NInput(B), NSlack(B), NBinary(B)>>
See(B, o) ==
  C("reported-sizes", o.sizes = Sizes(B))
  \cup C("output", \A k \in 1..Len(o.pts) : LET p == o.pts[k] IN
                     o.out[k] = ToTickV(OutAt(B, p.x, p.s, p.b)))
  \cup C("inequalities", \A k \in 1..Len(o.pts) : LET p == o.pts[k] IN
                     o.ineq[k] = ToTickV(IneqAt(B, p.x, p.s, p.b)))
  \cup C("equalities", \A k \in 1..Len(o.pts) : LET p == o.pts[k] IN
                     o.eq[k] = ToTickV(EqAt(B, p.x, p.s, p.b)))
  \cup C("input-bounds", SameB(o.xlo, B.xlo, NInput(B)) /\ SameB(o.xup, B.xup, NInput(B)))
  \cup C("slack-bounds", SameB(o.slo, B.slo, NSlack(B)) /\ SameB(o.sup, B.sup, NSlack(B)))
  \cup C("binary-bounds", SameB(o.blo, B.blo, NBinary(B)) /\ SameB(o.bup, B.bup, NBinary(B)))
AddOne(m) == IF m = <<>> THEN m ELSE <<TLCEval([k \in 1..Len(m[1]) |-> RAdd(m[1][k], R1)])>>
V(s, e) ==
  CASE e.op = "new" -> {}
    [] e.op = "see" -> See(s[e.id], e.obs)
    [] e.op = "make" -> C("new-block-numbered", e.id = Len(s) + 1)
    [] e.op \in {"clone", "concat", "transform", "poke"} -> {}
    [] e.op = "refused" -> C("inconsistent-call-refused", e.raised)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) ==
  CASE e.op = "new" -> <<>>
    [] e.op = "make" -> Append(s, e.B)
    [] e.op = "clone" -> Append(s, s[e.of])
    [] e.op = "transform" -> [s EXCEPT ![e.id] = Transform(@, e.A, e.a)]
    [] e.op = "concat" -> Append(s, Concat(s[e.p], s[e.q], e.sameS, e.sameB, e.out))
    [] e.op = "poke" -> [s EXCEPT ![e.id] =   \* right sides and constants shifted in place
         [@ EXCEPT !.h = AddOne(@), !.e = AddOne(@), !.o = AddOne(@)]]
    [] OTHER -> s
S0 == <<>>
=============================================================================

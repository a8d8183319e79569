------------------------------- MODULE Prog -------------------------------
(* Calls that build a program, and observations of both representations.   *)
EXTENDS ProgCore, TraceLib
VarsOk(s1, e) == e.nvars = Len(s1.vars)
Tk(row, p) == ToTick(Res(row, p))
Set(q) == {q[k] : k \in 1..Len(q)}
\* every row's left side minus right side at the point, as a set; an
\* equality may be kept with either sign
ResSet(s1, p, eq) == {Tk(KeptRows(s1)[k], p) : k \in {j \in 1..Len(KeptRows(s1)) : KeptRows(s1)[j].eq = eq}}
AbsSet(q) == {Abs(z) : z \in q}
Apply(s, e) ==
  CASE e.op = "vars" -> AddVars(s, e.kind, e.lo, e.up)
    [] e.op = "lconstr" -> AddRow(s, e.t, e.sense, e.rhs)
    [] e.op = "mconstr" -> AddRows(s, e.A, e.vs, e.sense, e.b)
    [] e.op = "block" -> AddBlock(s, e.B, e.xv, e.yv, e.bv, e.bkind)
    [] e.op = "unrelax" -> Unrelax(s)
    [] e.op = "objective" -> [s EXCEPT !.obj = [t |-> e.t, q |-> e.q, c |-> e.c, sense |-> e.sense]]
    [] OTHER -> s
KindsNow(s1) == [k \in 1..Len(s1.vars) |-> IF s1.vars[k].kind = "b" THEN "B" ELSE "C"]
V(s, e) ==
  CASE e.op = "new" -> {}
    [] e.op \in {"vars", "lconstr", "mconstr", "objective", "unrelax"} ->
         C("variables-in-the-program", VarsOk(Apply(s, e), e))
         \cup C("variable-types", e.types = KindsNow(Apply(s, e)))
    [] e.op = "block" ->
         C("variables-in-the-program", VarsOk(Apply(s, e), e))
         \cup C("variable-types", e.types = KindsNow(Apply(s, e)))
         \cup C("slack-and-binary-variables-returned",
                /\ e.sv = [k \in 1..e.B.ns |-> Len(s.vars) + k]
                /\ e.nv = (IF e.bv # <<>> THEN e.bv
                           ELSE [k \in 1..e.B.nb |-> Len(s.vars) + e.B.ns + k]))
    [] e.op = "probe" ->
         LET kept == KeptOk(s, e.p)
         IN C("solver-admits-the-point", e.solver = SolverOk(s, e.p))
            \cup C("matrices-admit-the-point",
                   KindOk(s, e.p) => e.kept = kept)
            \cup C("inequality-rows", Set(e.ineq) = ResSet(s, e.p, FALSE))
            \cup C("equality-rows", AbsSet(Set(e.eq)) = AbsSet(ResSet(s, e.p, TRUE)))
            \cup C("active-rows",
                   AbsSet(Set(e.act)) = AbsSet({e.ineq[e.rows[k] + 1] : k \in 1..Len(e.rows)})
                                        \cup AbsSet(Set(e.eq)))
            \cup C("kept-objective", e.hasobj => NearT(e.kobj, ObjAt(s, e.p), 2))
            \cup C("solver-objective",
                   e.hasobj => /\ NearT(e.sobj, ObjAt(s, e.p), 2)
                               /\ e.sense = s.obj.sense /\ e.ksense = s.obj.sense)
    [] e.op = "refused" -> C("inconsistent-call-refused", e.raised)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == IF e.op = "new" THEN Empty ELSE Apply(s, e)
S0 == Empty
=============================================================================

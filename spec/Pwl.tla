--------------------------------- MODULE Pwl ---------------------------------
EXTENDS PwlCore, TraceLib
\* solver output, in ticks (st) with tolerance tol
VT(c, d, m, x) == CDotT(x, c[m]) + d[m]
DerT(y, c, d, e, x) == CDotT(Flow(e, x), c[e.m]) + CMulT(y.e2, VT(c, d, e.m, x))
PosT(y, c, d, e, x) == ToTick(RMul(y.e1, L1(VSub(x, y.xs)))) - VT(c, d, e.m, x)
V(s, e) ==
  LET y == e.y IN
  CASE e.op = "admit" ->
         C("admits-exactly-the-valid-functions",
           \* ok: 1 admitted, 0 not, as the constraint set evaluates
           e.ok = (IF Admit(y, e.c, e.d, e.s1, e.s2) THEN 1 ELSE 0))
    [] e.op = "refuse" -> C("inconsistent-piece-refused", e.raised)
    [] e.op = "solve" ->
         LET t == e.tol IN
         C("vanishes-at-the-equilibrium", Abs(VT(e.c, e.d, y.eq, y.xs)) <= t)
         \cup C("solution-continuous",
                \A k \in 1..Len(y.con) : \A q \in 1..Len(y.con[k].vs) :
                  Abs(VT(e.c, e.d, y.con[k].m, y.con[k].vs[q])
                      - VT(e.c, e.d, y.con[k].m2, y.con[k].vs[q])) <= t)
         \cup C("reported-slacks-cover-the-solution",
                /\ e.s1 >= -t /\ e.s2 >= -t
                /\ \A k \in 1..Len(y.der) : \A q \in 1..Len(y.der[k].vs) :
                     DerT(y, e.c, e.d, y.der[k], y.der[k].vs[q]) <= e.s1 + t
                /\ \A k \in 1..Len(y.pos) : \A q \in 1..Len(y.pos[k].vs) :
                     PosT(y, e.c, e.d, y.pos[k], y.pos[k].vs[q]) <= e.s2 + t)
         \cup C("no-known-function-is-better",
                \A k \in 1..Len(e.known) :
                  LET f == e.known[k] IN
                  (Anchored(y, f.c, f.d) /\ Continuous(y, f.c, f.d)) =>
                    CMulT(RSub(R1, e.w), e.s1) + CMulT(e.w, e.s2)
                      <= ToTick(BestPrice(y, f.c, f.d, e.w)) + t)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

--------------------------------- MODULE RK4 ---------------------------------
EXTENDS RK4Core, TraceLib
V(s, e) ==
  CASE e.op = "rk4" ->
         LET u == Ctl(e.p, e.x0)
             x == RunT(e.d, ToTickV(e.x0), ToTickV(u), e.dt, e.n)
         IN C("control-is-the-initial-one", VNear(e.u, u))
            \cup C("state-after-n-classical-steps", IVNear(e.x, x, e.tol))
            \cup C("initial-state-untouched", e.x0after = e.x0)
            \cup C("control-sampled-at-initial-state-only",
                   \A k \in 1..Len(e.asked) : VNear(e.asked[k], e.x0))
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

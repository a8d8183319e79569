------------------------------- MODULE Value -------------------------------
(***************************************************************************)
(* The optimal value of a program as a function of its data.  A solved     *)
(* program is observed with a solution (pool entry), the value the solver  *)
(* attaches to it, the value recomputed from the kept data, and the        *)
(* derivatives of the latter.  While the active set and the binaries stay, *)
(* the value V of  opt c x + x'Qx  subject to the active rows satisfies    *)
(*   dV/dc_j = x_j, dV/dQ_ij = x_i x_j, dV/dconst = 1,                     *)
(*   dV/drhs_k = l_k, dV/da_kj = - l_k x_j,                                *)
(* where the multipliers l vanish off the active rows and                  *)
(*   c_j + sum_i (Q_ij + Q_ji) x_i = sum_k l_k a_kj   for continuous j.    *)
(* Solution, multipliers and derivatives are in ticks.                     *)
(*  e: [vars kinds, rows: [eq, t, rhs], obj: [t, q, c], x, sol, re,        *)
(*      hasgrad, gc: per obj.t, gq, gk, gr: per row, ga: per row per term] *)
(***************************************************************************)
EXTENDS Rat, TraceLib
Tol == 12
RECURSIVE LinTo(_, _, _)
LinTo(t, x, n) == IF n = 0 THEN 0 ELSE LinTo(t, x, n - 1) + CMulT(t[n][2], x[t[n][1]])
Lin(t, x) == LinTo(t, x, Len(t))
RECURSIVE QuadTo(_, _, _)
QuadTo(q, x, n) == IF n = 0 THEN 0
  ELSE QuadTo(q, x, n - 1) + CMulT(q[n][3], TMul(x[q[n][1]], x[q[n][2]]))
\* what rounding x to ticks can change in these sums
RECURSIVE LinSlopTo(_, _)
LinSlopTo(t, n) == IF n = 0 THEN 2 ELSE LinSlopTo(t, n - 1) + 1 + (Abs(ToTick(t[n][2])) \div K)
LinSlop(t) == LinSlopTo(t, Len(t))
RECURSIVE QuadSlopTo(_, _, _)
QuadSlopTo(q, x, n) == IF n = 0 THEN 2
  ELSE QuadSlopTo(q, x, n - 1) + 1
       + CMulT(RAbs(q[n][3]), Abs(x[q[n][1]]) + Abs(x[q[n][2]]) + K) \div K
ObjSlop(e) == LinSlop(e.obj.t) + QuadSlopTo(e.obj.q, e.x, Len(e.obj.q))
ObjT(e) == ToTick(e.obj.c) + Lin(e.obj.t, e.x) + QuadTo(e.obj.q, e.x, Len(e.obj.q))
ResT(e, k) == Lin(e.rows[k].t, e.x) - ToTick(e.rows[k].rhs)
Active(e, k) == Abs(ResT(e, k)) <= LinSlop(e.rows[k].t)
Feasible(e) ==
  \A k \in 1..Len(e.rows) : IF e.rows[k].eq THEN Active(e, k)
                               ELSE ResT(e, k) <= LinSlop(e.rows[k].t)
\* derivative of the objective in variable j at the solution
RECURSIVE DTo(_, _, _, _)
DTo(q, x, j, n) == IF n = 0 THEN 0
  ELSE DTo(q, x, j, n - 1)
       + (IF q[n][1] = j THEN CMulT(q[n][3], x[q[n][2]]) ELSE 0)
       + (IF q[n][2] = j THEN CMulT(q[n][3], x[q[n][1]]) ELSE 0)
RECURSIVE CTo(_, _, _)
CTo(t, j, n) == IF n = 0 THEN 0
  ELSE CTo(t, j, n - 1) + (IF t[n][1] = j THEN ToTick(t[n][2]) ELSE 0)
DObj(e, j) == CTo(e.obj.t, j, Len(e.obj.t)) + DTo(e.obj.q, e.x, j, Len(e.obj.q))
RECURSIVE LTo(_, _, _)
LTo(e, j, n) == IF n = 0 THEN 0
  ELSE LTo(e, j, n - 1) +
       LET t == e.rows[n].t
           RECURSIVE S(_)
           S(m) == IF m = 0 THEN 0 ELSE S(m - 1) + (IF t[m][1] = j THEN CMulT(t[m][2], e.gr[n]) ELSE 0)
       IN S(Len(t))
Stationary(e) ==
  \A j \in 1..Len(e.kinds) : e.kinds[j] = "c" =>
     Abs(DObj(e, j) - LTo(e, j, Len(e.rows)))
       <= Tol + Len(e.rows) + LinSlop(e.obj.t) + QuadSlopTo(e.obj.q, [k \in 1..Len(e.x) |-> 0], Len(e.obj.q))
Scale(x) == Tol + (Abs(x) \div 512)
V(s, e) ==
  CASE e.op = "solved" ->
         C("pool-solution-feasible", Feasible(e))
         \cup C("solver-value", Abs(e.sol - ObjT(e)) <= ObjSlop(e))
         \cup C("recomputed-value", Abs(e.re - e.sol) <= 4)
         \cup C("value-from-reported-active-set", Abs(e.re2 - e.sol) <= 4)
         \cup C("reported-binaries",
                e.zeta = [k \in 1..Len(e.zeta) |-> e.x[e.zvars[k]]])
         \cup C("reported-active-rows",
                {e.act[k] : k \in 1..Len(e.act)} = {k \in 0..(Len(e.res) - 1) : Abs(e.res[k + 1]) <= 1})
         \cup (IF ~e.hasgrad THEN {} ELSE
              C("derivative-in-cost", \A k \in 1..Len(e.obj.t) :
                   Abs(e.gc[k] - e.x[e.obj.t[k][1]]) <= Scale(e.gc[k]))
              \cup C("derivative-in-quadratic-cost", \A k \in 1..Len(e.obj.q) :
                   Abs(e.gq[k] - TMul(e.x[e.obj.q[k][1]], e.x[e.obj.q[k][2]])) <= Scale(e.gq[k]))
              \cup C("derivative-in-constant", Abs(e.gk - K) <= 1)
              \cup C("multipliers-off-active-rows", \A k \in 1..Len(e.rows) :
                   ~Active(e, k) => Abs(e.gr[k]) <= Tol)
              \cup C("multipliers-balance-the-cost", Stationary(e))
              \cup C("derivative-in-coefficients", \A k \in 1..Len(e.rows) :
                   \A m \in 1..Len(e.ga[k]) :
                     Abs(e.ga[k][m] + TMul(e.gr[k], e.x[e.rows[k].t[m][1]]))
                       <= Scale(e.ga[k][m]) + (Abs(e.gr[k]) \div 1024)))
    [] e.op = "noisy" ->
         \* solution off by noise: recovered by widening the tolerance, or refused
         C("wrong-value-returned", ~e.raised => Abs(e.re - e.sol) <= 8)
         \cup C("tolerance-not-widened", e.within => ~e.raised)
         \cup C("refusal-expected", e.beyond => e.raised)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

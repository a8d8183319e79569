------------------------------ MODULE ProgCore ------------------------------
(***************************************************************************)
(* A mixed-integer program built call by call, kept twice: as the solver's *)
(* model and as matrices.  State:                                          *)
(*   vars : sequence of [kind, lo, up, slo, sup]                           *)
(*     kind  : "c" continuous, "b" binary, "r" binary relaxed to [0, 1]    *)
(*     lo,up : bounds declared with the variable  (<<>> = none)            *)
(*     slo,sup : bounds tightened later by an encoded block (solver only:  *)
(*             the block's own rows imply them)                            *)
(*   rows : sequence of [eq, t, rhs], t a sequence of <<variable, coeff>>; *)
(*          an inequality is t <= rhs                                      *)
(*   obj  : [t, q, c, sense]  linear terms, quadratic terms, constant      *)
(* Variables are numbered in the order they were added.                    *)
(***************************************************************************)
EXTENDS Rat
Empty == [vars |-> <<>>, rows |-> <<>>,
          obj |-> [t |-> <<>>, q |-> <<>>, c |-> R0, sense |-> "min"]]
NewVar(kind, lo, up) == [kind |-> kind, lo |-> lo, up |-> up, slo |-> <<>>, sup |-> <<>>]
AddVars(s, kind, lo, up) ==
  [s EXCEPT !.vars = @ \o [k \in 1..Len(lo) |-> NewVar(kind, lo[k], up[k])]]
NegT(t) == [k \in 1..Len(t) |-> <<t[k][1], RNeg(t[k][2])>>]
Row(t, sense, rhs) ==
  CASE sense = "<" -> [eq |-> FALSE, t |-> t, rhs |-> rhs]
    [] sense = ">" -> [eq |-> FALSE, t |-> NegT(t), rhs |-> RNeg(rhs)]
    [] sense = "=" -> [eq |-> TRUE, t |-> t, rhs |-> rhs]
AddRow(s, t, sense, rhs) == [s EXCEPT !.rows = Append(@, Row(t, sense, rhs))]
MRows(A, vs, sense, b) ==
  [r \in 1..Len(A) |-> Row([k \in 1..Len(vs) |-> <<vs[k], A[r][k]>>], sense, b[r])]
AddRows(s, A, vs, sense, b) == [s EXCEPT !.rows = @ \o MRows(A, vs, sense, b)]

(* Tightening by a block: only ever narrows. *)
Tight(v, lo, up, d) ==
  LET curlo == IF v.slo # <<>> THEN v.slo ELSE v.lo
      curup == IF v.sup # <<>> THEN v.sup ELSE v.up
  IN [v EXCEPT !.slo = IF lo # <<>> /\ (curlo = <<>> \/ RLt(curlo[1], lo[1])) THEN lo ELSE @,
               !.sup = IF up # <<>> /\ (curup = <<>> \/ RLt(up[1], curup[1])) THEN up ELSE @]
TightAll(vars, vs, lo, up) ==   \* lo, up: sequences over vs, or <<>> for none
  [k \in 1..Len(vars) |->
     LET at == {j \in 1..Len(vs) : vs[j] = k}
     IN IF at = {} THEN vars[k]
        ELSE LET j == CHOOSE j \in at : TRUE
             IN Tight(vars[k], IF lo = <<>> THEN <<>> ELSE <<lo[j]>>,
                               IF up = <<>> THEN <<>> ELSE <<up[j]>>, 0)]

(* A block  Gx x + Gs s + Gb b <= h,  Ex x + Es s + Eb b = e,              *)
(* y = Ox x + Os s + Ob b + o  on inputs xv, outputs yv (<<>> = none).     *)
(* B: [ns, nb, Gi, h, Ge, e, Go, o, xlo, xup, slo, sup, blo, bup], the     *)
(* matrices over (x, s, b).                                                *)
AddBlock(s, B, xv, yv, bv, bkind) ==
  LET n0 == Len(s.vars)
      sv == [k \in 1..B.ns |-> n0 + k]
      nv == IF bv = <<>> THEN [k \in 1..B.nb |-> n0 + B.ns + k] ELSE bv
      s1 == [s EXCEPT !.vars = TightAll(@, xv, B.xlo, B.xup)]
      s2 == [s1 EXCEPT !.vars = @ \o [k \in 1..B.ns |-> NewVar("c", <<>>, <<>>)]]
      s3 == IF bv # <<>> THEN s2
            ELSE [s2 EXCEPT !.vars = @ \o [k \in 1..B.nb |-> NewVar(bkind, <<R0>>, <<R1>>)]]
      s4 == [s3 EXCEPT !.vars = TightAll(TightAll(@, sv, B.slo, B.sup),
                                         IF bv = <<>> THEN nv ELSE <<>>, B.blo, B.bup)]
      all == xv \o sv \o nv
      s5 == AddRows(s4, B.Gi, all, "<", B.h)
      s6 == AddRows(s5, B.Ge, all, "=", B.e)
  IN IF yv = <<>> THEN s6
     ELSE AddRows(s6, [r \in 1..Len(B.Go) |->
                         [k \in 1..Len(yv) |-> IF k = r THEN << -1, 1>> ELSE R0] \o B.Go[r]],
                  yv \o all, "=", VNeg(B.o))

Unrelax(s) ==
  [s EXCEPT !.vars = [k \in 1..Len(s.vars) |->
     IF s.vars[k].kind = "r" THEN [s.vars[k] EXCEPT !.kind = "b"] ELSE s.vars[k]]]

(* ---- meaning ---- *)
RECURSIVE EvalTo(_, _, _)
EvalTo(t, p, n) == IF n = 0 THEN R0 ELSE RAdd(EvalTo(t, p, n - 1), RMul(t[n][2], p[t[n][1]]))
Eval(t, p) == EvalTo(t, p, Len(t))
Res(row, p) == RSub(Eval(row.t, p), row.rhs)
RowOk(row, p) == IF row.eq THEN Res(row, p) = R0 ELSE Res(row, p)[1] <= 0
Above(x, lo) == lo = <<>> \/ RLe(lo[1], x)
Below(x, up) == up = <<>> \/ RLe(x, up[1])
Cont(s) == {k \in 1..Len(s.vars) : s.vars[k].kind = "c"}
\* what the matrices must admit (binaries range over {0, 1} / [0, 1] by kind)
BoundRows(s) ==   \* declared bounds of continuous variables, as rows
  LET cs == SelectSeq([k \in 1..Len(s.vars) |-> k], LAMBDA k : s.vars[k].kind = "c")
      f(k) == LET v == s.vars[k]
                  x == <<<<k, R1>>>>
              IN IF v.lo # <<>> /\ v.lo = v.up
                 THEN <<[eq |-> TRUE, t |-> x, rhs |-> v.lo[1]]>>
                 ELSE (IF v.lo # <<>> THEN <<[eq |-> FALSE, t |-> NegT(x), rhs |-> RNeg(v.lo[1])]>> ELSE <<>>)
                      \o (IF v.up # <<>> THEN <<[eq |-> FALSE, t |-> x, rhs |-> v.up[1]]>> ELSE <<>>)
      RECURSIVE Cat(_)
      Cat(n) == IF n = 0 THEN <<>> ELSE Cat(n - 1) \o f(cs[n])
  IN Cat(Len(cs))
KeptRows(s) == s.rows \o BoundRows(s)
KindOk(s, p) ==
  \A k \in 1..Len(s.vars) :
    CASE s.vars[k].kind = "b" -> p[k] \in {R0, R1}
      [] s.vars[k].kind = "r" -> RLe(R0, p[k]) /\ RLe(p[k], R1)
      [] OTHER -> TRUE
KeptOk(s, p) == KindOk(s, p) /\ \A k \in 1..Len(KeptRows(s)) : RowOk(KeptRows(s)[k], p)
SolverOk(s, p) ==
  /\ KindOk(s, p)
  /\ \A k \in 1..Len(s.rows) : RowOk(s.rows[k], p)
  /\ \A k \in 1..Len(s.vars) : LET v == s.vars[k]
       IN Above(p[k], v.lo) /\ Below(p[k], v.up) /\ Above(p[k], v.slo) /\ Below(p[k], v.sup)
RECURSIVE QTo(_, _, _)
QTo(q, p, n) == IF n = 0 THEN R0
  ELSE RAdd(QTo(q, p, n - 1), RMul(q[n][3], RMul(p[q[n][1]], p[q[n][2]])))
ObjAt(s, p) == RAdd(s.obj.c, RAdd(Eval(s.obj.t, p), QTo(s.obj.q, p, Len(s.obj.q))))
=============================================================================

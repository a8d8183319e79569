---------------------------- MODULE CombineCore ----------------------------
(***************************************************************************)
(* Encoded blocks as values.  A block is a record of matrices, each        *)
(* present (<<M>>) or absent (<<>>):                                       *)
(*   Ox Os Ob o | Gx Gs Gb h | Ex Es Eb e | xlo xup slo sup blo bup        *)
(* Its meaning at (x, s, b): output Ox x + Os s + Ob b + o, inequality     *)
(* residuals Gx x + Gs s + Gb b - h, equality residuals, bounds.           *)
(***************************************************************************)
EXTENDS Rat
Rows(m) == IF m = <<>> THEN 0 ELSE Len(m[1])
Cols(m) == IF m = <<>> THEN -1 ELSE IF m[1] = <<>> THEN -1 ELSE Len(m[1][1])
MaxOf(S) == CHOOSE a \in S : \A b \in S : a >= b
NOut(B) == MaxOf({Rows(B.Ox), Rows(B.Os), Rows(B.Ob), Rows(B.o)})
NIneq(B) == Rows(B.h)
NEq(B) == Rows(B.e)
NVar(a, b, c) == MaxOf({0, Cols(a), Cols(b), Cols(c)})
NInput(B) == NVar(B.Ox, B.Gx, B.Ex)
NSlack(B) == NVar(B.Os, B.Gs, B.Es)
NBinary(B) == NVar(B.Ob, B.Gb, B.Eb)
Term(M, v, n) == IF M = <<>> THEN VZero(n) ELSE MatVec(M[1], v)
Vc(v, n) == IF v = <<>> THEN VZero(n) ELSE v[1]
OutAt(B, x, s, b) == LET n == NOut(B) IN
  VAdd(VAdd(Term(B.Ox, x, n), Term(B.Os, s, n)), VAdd(Term(B.Ob, b, n), Vc(B.o, n)))
IneqAt(B, x, s, b) == LET n == NIneq(B) IN
  VSub(VAdd(Term(B.Gx, x, n), VAdd(Term(B.Gs, s, n), Term(B.Gb, b, n))), Vc(B.h, n))
EqAt(B, x, s, b) == LET n == NEq(B) IN
  VSub(VAdd(Term(B.Ex, x, n), VAdd(Term(B.Es, s, n), Term(B.Eb, b, n))), Vc(B.e, n))

(* x = A z + a *)
Sub(M, A) == IF M = <<>> THEN M ELSE <<MatMul(M[1], A)>>
Move(v, M, a, sg) ==
  IF M = <<>> THEN v
  ELSE LET d == MatVec(M[1], a)
       IN IF v = <<>> THEN <<d>>
          ELSE <<IF sg > 0 THEN VAdd(v[1], d) ELSE VSub(v[1], d)>>
Transform(B, A, a) ==
  [B EXCEPT !.Ox = Sub(@, A), !.Gx = Sub(@, A), !.Ex = Sub(@, A),
            !.o = Move(@, B.Ox, a, 1), !.h = Move(@, B.Gx, a, -1),
            !.e = Move(@, B.Ex, a, -1)]

(* Two blocks on one input; slacks and binaries shared or side by side. *)
HasOut(B) == NOut(B) > 0
Zero(r, c) == [k \in 1..r |-> VZero(c)]
Stack(M1, M2, r1, r2, c) ==
  IF M1 = <<>> /\ M2 = <<>> THEN <<>>
  ELSE << (IF M1 = <<>> THEN Zero(r1, c) ELSE M1[1]) \o (IF M2 = <<>> THEN Zero(r2, c) ELSE M2[1]) >>
Wide(M, r, c) == IF M = <<>> THEN Zero(r, c) ELSE M[1]
Diag(M1, M2, r1, r2, c1, c2) ==
  IF M1 = <<>> /\ M2 = <<>> THEN <<>>
  ELSE << [k \in 1..r1 |-> Wide(M1, r1, c1)[k] \o VZero(c2)] \o
          [k \in 1..r2 |-> VZero(c1) \o Wide(M2, r2, c2)[k]] >>
StackV(v1, v2, r1, r2) ==
  IF v1 = <<>> /\ v2 = <<>> THEN <<>> ELSE << Vc(v1, r1) \o Vc(v2, r2) >>
\* bounds: <<>> absent; entries <<>> = none
Narrow(b1, b2, F(_, _)) ==
  IF b1 = <<>> THEN b2 ELSE IF b2 = <<>> THEN b1
  ELSE << [k \in 1..Len(b1[1]) |-> F(b1[1][k], b2[1][k])] >>
MaxB(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p ELSE <<RMax(p[1], q[1])>>
MinB(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p ELSE <<RMin(p[1], q[1])>>
Free(n) == [k \in 1..n |-> <<>>]
BesideB(b1, b2, n1, n2) ==
  IF b1 = <<>> /\ b2 = <<>> THEN <<>>
  ELSE << (IF b1 = <<>> THEN Free(n1) ELSE b1[1]) \o (IF b2 = <<>> THEN Free(n2) ELSE b2[1]) >>
Concat(P, Q, sameS, sameB, out) ==
  LET nx == NInput(P)
      s1 == NSlack(P)  s2 == NSlack(Q)  b1 == NBinary(P)  b2 == NBinary(Q)
      i1 == NIneq(P)  i2 == NIneq(Q)  e1 == NEq(P)  e2 == NEq(Q)
      o1 == NOut(P)  o2 == NOut(Q)
      S(M1, M2, r1, r2) == IF sameS THEN Stack(M1, M2, r1, r2, s1) ELSE Diag(M1, M2, r1, r2, s1, s2)
      Bi(M1, M2, r1, r2) == IF sameB THEN Stack(M1, M2, r1, r2, b1) ELSE Diag(M1, M2, r1, r2, b1, b2)
  IN [Gx |-> Stack(P.Gx, Q.Gx, i1, i2, nx), Ex |-> Stack(P.Ex, Q.Ex, e1, e2, nx),
      h |-> StackV(P.h, Q.h, i1, i2), e |-> StackV(P.e, Q.e, e1, e2),
      Gs |-> S(P.Gs, Q.Gs, i1, i2), Es |-> S(P.Es, Q.Es, e1, e2),
      Gb |-> Bi(P.Gb, Q.Gb, i1, i2), Eb |-> Bi(P.Eb, Q.Eb, e1, e2),
      Ox |-> IF out THEN Stack(P.Ox, Q.Ox, o1, o2, nx) ELSE <<>>,
      Os |-> IF out THEN S(P.Os, Q.Os, o1, o2) ELSE <<>>,
      Ob |-> IF out THEN Bi(P.Ob, Q.Ob, o1, o2) ELSE <<>>,
      o |-> IF out THEN StackV(P.o, Q.o, o1, o2) ELSE <<>>,
      xlo |-> Narrow(P.xlo, Q.xlo, MaxB), xup |-> Narrow(P.xup, Q.xup, MinB),
      slo |-> IF sameS THEN Narrow(P.slo, Q.slo, MaxB) ELSE BesideB(P.slo, Q.slo, s1, s2),
      sup |-> IF sameS THEN Narrow(P.sup, Q.sup, MinB) ELSE BesideB(P.sup, Q.sup, s1, s2),
      blo |-> IF sameB THEN Narrow(P.blo, Q.blo, MaxB) ELSE BesideB(P.blo, Q.blo, b1, b2),
      bup |-> IF sameB THEN Narrow(P.bup, Q.bup, MinB) ELSE BesideB(P.bup, Q.bup, b1, b2)]
=============================================================================

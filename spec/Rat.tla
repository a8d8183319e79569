-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic, vectors and matrices.  A rational is the    *)
(* pair <<n, d>> in lowest terms with d > 0.  TLC checks 32-bit overflow, *)
(* so a result is either exact or an evaluation error, never wrong.       *)
(* Observed floating-point numbers that are not small dyadics are recorded*)
(* in units of 1/4096 ("ticks") and compared with Near.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

Norm(n, d) ==
  IF d = 1 THEN <<n, 1>>
  ELSE IF n = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN << s * (n \div g), s * (d \div g) >>

RInt(n) == <<n, 1>>
R0 == <<0, 1>>
R1 == <<1, 1>>
RNeg(a) == << -a[1], a[2] >>
RAdd(a, b) ==
  IF a[2] = b[2] THEN Norm(a[1] + b[1], a[2])
  ELSE LET g == Gcd(a[2], b[2])
       IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g),
               (a[2] \div g) * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN R0
  ELSE LET g == Gcd(Abs(a[1]), b[2])
           h == Gcd(Abs(b[1]), a[2])
       IN << (a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g) >>
RInv(a) == IF a[1] < 0 THEN << -a[2], -a[1] >> ELSE << a[2], a[1] >>
RDiv(a, b) == RMul(a, RInv(b))
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLe(a, b) == IF a[2] = b[2] THEN a[1] <= b[1] ELSE RSub(a, b)[1] <= 0
RLt(a, b) == IF a[2] = b[2] THEN a[1] < b[1] ELSE RSub(a, b)[1] < 0
RAbs(a) == << Abs(a[1]), a[2] >>
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RPos(a) == RMax(a, R0)
RClamp(a, lo, up) == RMin(RMax(a, lo), up)

(* Sums and extrema over sequences *)
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN R0 ELSE RAdd(SumTo(s, n - 1), s[n])
RSum(s) == SumTo(s, Len(s))
RECURSIVE MaxTo(_, _)
MaxTo(s, n) == IF n = 1 THEN s[1] ELSE RMax(MaxTo(s, n - 1), s[n])
RMaxSeq(s) == MaxTo(s, Len(s))
RECURSIVE MinTo(_, _)
MinTo(s, n) == IF n = 1 THEN s[1] ELSE RMin(MinTo(s, n - 1), s[n])
RMinSeq(s) == MinTo(s, Len(s))

(* Vectors (sequences of rationals) and matrices (sequences of rows).  In  *)
(* TLA+ a function with domain 1..n IS a sequence; TLCEval forces it.     *)
VAdd(a, b) == TLCEval([k \in 1..Len(a) |-> RAdd(a[k], b[k])])
VSub(a, b) == TLCEval([k \in 1..Len(a) |-> RSub(a[k], b[k])])
VScale(c, a) == TLCEval([k \in 1..Len(a) |-> RMul(c, a[k])])
VNeg(a) == TLCEval([k \in 1..Len(a) |-> RNeg(a[k])])
VZero(n) == [k \in 1..n |-> R0]
RECURSIVE DotTo(_, _, _)
DotTo(a, b, n) ==
  IF n = 0 THEN R0 ELSE RAdd(DotTo(a, b, n - 1), RMul(a[n], b[n]))
Dot(a, b) == DotTo(a, b, Len(a))
MatVec(M, v) == TLCEval([r \in 1..Len(M) |-> Dot(M[r], v)])
MatRow(M, r) == M[r]
MatCol(M, c) == [r \in 1..Len(M) |-> M[r][c]]
VecMat(v, M) == TLCEval([c \in 1..Len(M[1]) |-> Dot(v, MatCol(M, c))])
MatMul(A, B) ==
  TLCEval([r \in 1..Len(A) |-> [c \in 1..Len(B[1]) |-> Dot(A[r], MatCol(B, c))]])
MatAdd(A, B) == TLCEval([r \in 1..Len(A) |-> VAdd(A[r], B[r])])
Transpose(M) == TLCEval([c \in 1..Len(M[1]) |-> MatCol(M, c)])
Eye(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN R1 ELSE R0]]
L1(v) == RSum([k \in 1..Len(v) |-> RAbs(v[k])])
VLe(a, b) == \A k \in 1..Len(a) : RLe(a[k], b[k])
InBox(x, lo, up) == VLe(lo, x) /\ VLe(x, up)

(* Ticks *)
K == 4096
RECURSIVE TickStage(_, _, _, _)
TickStage(q, r, d, n) ==
  IF n = 0 THEN q
  ELSE TickStage(q * 8 + (r * 8) \div d, (r * 8) % d, d, n - 1)
ToTick(e) ==
  LET q == e[1] \div e[2]
      r == e[1] - q * e[2]
  IN IF e[2] < 16777216
     THEN LET a == (r * 64) \div e[2]
          IN q * K + a * 64 + ((r * 64 - a * e[2]) * 64) \div e[2]
     ELSE TickStage(q, r, e[2], 4)
NearT(o, e, t) == Abs(o - ToTick(e)) <= t
Near(o, e) == NearT(o, e, 3)
VNear(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : Near(o[k], e[k])
VNearT(o, e, t) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : NearT(o[k], e[k], t)
MNear(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : VNear(o[k], e[k])

(* Fixed-point arithmetic in ticks: rounded, for long computations.        *)
RDivI(a, b) == (2 * a + b) \div (2 * b)          \* nearest, b > 0
TMul(a, b) ==
  LET ah == a \div K
      al == a - ah * K
      bh == b \div K
      bl == b - bh * K
  IN ah * b + al * bh + RDivI(al * bl, K)
CMulT(c, t) ==                                   \* rational times ticks
  LET q == t \div c[2]
      r == t - q * c[2]
  IN c[1] * q + RDivI(c[1] * r, c[2])
RECURSIVE ISumTo(_, _)
ISumTo(s, n) == IF n = 0 THEN 0 ELSE ISumTo(s, n - 1) + s[n]
ISum(s) == ISumTo(s, Len(s))
CDotT(c, t) == ISum([k \in 1..Len(t) |-> CMulT(c[k], t[k])])
IVNear(o, e, tol) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : Abs(o[k] - e[k]) <= tol
ToTickV(v) == TLCEval([k \in 1..Len(v) |-> ToTick(v[k])])

(* Failing-clause bookkeeping *)
C(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================

----------------------------- MODULE BlockCore -----------------------------
(***************************************************************************)
(* The graphs of the piecewise-linear building blocks: for an argument    *)
(* vector x and a value of the binaries, whether the pair is admitted and *)
(* which value the block takes.                                           *)
(* p: [lo, up : vectors; c : slope; a, b : limits; zero : BOOLEAN]        *)
(***************************************************************************)
EXTENDS Rat
Nil == [ok |-> FALSE, val |-> R0]
G(c, v) == IF c THEN [ok |-> TRUE, val |-> v] ELSE Nil
RSumB(b) == Cardinality({k \in 1..Len(b) : b[k] = 1})
\* b[k] = 1 forces cond[k]; exactly one is set
OneOf(b, cond) == RSumB(b) = 1 /\ \A k \in 1..Len(b) : b[k] = 1 => cond[k]
Product(p, x, b) == G(InBox(x, p.lo, p.up), IF b[1] = 1 THEN x[1] ELSE R0)
GradX(p, x, b) == G(InBox(x, p.lo, p.up), IF b[1] = 1 THEN x[1] ELSE RMul(p.c, x[1]))
Maximum(p, x, b) ==
  LET m == RMaxSeq(x)
  IN G(OneOf(b, [k \in 1..Len(x) |-> x[k] = m]), m)
AbsB(p, x, b) ==
  G(InBox(x, p.lo, p.up)
    /\ IF p.zero
       THEN \* a sign the range never reaches is not offered
            OneOf(b, <<x[1][1] <= 0 /\ p.lo[1][1] < 0, x[1][1] = 0,
                       x[1][1] >= 0 /\ (p.up[1][1] > 0 \/ p.lo[1][1] = 0)>>)
       ELSE \* one binary; when the range is one-sided it is fixed
         IF p.lo[1][1] < 0 /\ p.up[1][1] > 0
         THEN IF b[1] = 1 THEN x[1][1] >= 0 ELSE x[1][1] <= 0
         ELSE b[1] = (IF p.lo[1][1] >= 0 THEN 1 ELSE 0),
    RAbs(x[1]))
Relu(p, x, b) ==
  G(InBox(x, p.lo, p.up) /\ (IF b[1] = 1 THEN x[1][1] >= 0 ELSE x[1][1] <= 0),
    IF x[1][1] >= 0 THEN x[1] ELSE RMul(p.c, x[1]))
\* which binaries the saturation of a range needs
SatLo(p) == RLt(p.lo[1], p.a) /\ RLt(p.a, p.up[1])
SatUp(p) == RLt(p.lo[1], p.b) /\ RLt(p.b, p.up[1])
SatN(p) == (IF SatLo(p) THEN 1 ELSE 0) + (IF SatUp(p) THEN 1 ELSE 0)
SatVal(p, x) == RClamp(x[1], p.a, p.b)
SatDeclares(p) == SatN(p) > 0
Sat(p, x, b) ==
  LET bl == IF SatLo(p) THEN b[1] ELSE 0
      bu == IF SatUp(p) THEN b[Len(b)] ELSE 0
  IN G(/\ SatDeclares(p) => InBox(x, p.lo, p.up)
       /\ SatLo(p) => IF bl = 1 THEN RLe(x[1], p.a) ELSE RLe(p.a, x[1])
       /\ SatUp(p) => IF bu = 1 THEN RLe(p.b, x[1]) ELSE RLe(x[1], p.b),
       SatVal(p, x))
Boundary(p, x, b) ==
  LET n == Len(x)
  IN G(InBox(x, p.lo, p.up)
       /\ OneOf(b, [k \in 1..(2 * n) |-> IF k <= n THEN x[k] = p.up[k]
                                         ELSE x[k - n] = p.lo[k - n]]), R0)
Graph(kind, p, x, b) ==
  CASE kind = "product" -> Product(p, x, b)
    [] kind = "gradx" -> GradX(p, x, b)
    [] kind = "max" -> Maximum(p, x, b)
    [] kind = "abs" -> AbsB(p, x, b)
    [] kind = "relu" -> Relu(p, x, b)
    [] kind = "sat" -> Sat(p, x, b)
    [] kind = "boundary" -> Boundary(p, x, b)
NBin(kind, p) ==
  CASE kind = "max" -> Len(p.lo)
    [] kind = "abs" -> IF p.zero THEN 3 ELSE 1
    [] kind = "sat" -> SatN(p)
    [] kind = "boundary" -> 2 * Len(p.lo)
    [] OTHER -> 1
HasOut(kind) == kind # "boundary"
\* the maximum, and a saturation that cannot occur, declare no range
Judged(kind, p, x) ==
  InBox(x, p.lo, p.up) \/ ~(kind = "max" \/ (kind = "sat" /\ ~SatDeclares(p)))
=============================================================================

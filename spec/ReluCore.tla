------------------------------ MODULE ReluCore ------------------------------
(***************************************************************************)
(* Fully connected (leaky) ReLU networks.  A network is                   *)
(*   [W |-> <<W1,..,Wn>>, b |-> <<b1,..,bn>>, c |-> slope]                *)
(* with a (leaky) ReLU between consecutive linear layers.                 *)
(***************************************************************************)
EXTENDS Rat
NL(net) == Len(net.W)
Act(c, v) == IF v[1] >= 0 THEN v ELSE RMul(c, v)
Lin(net, k, z) == VAdd(MatVec(net.W[k], z), net.b[k])
ActV(c, v) == TLCEval([j \in 1..Len(v) |-> Act(c, v[j])])

\* pre-activations of every layer (the last entry is the network output)
RECURSIVE PresFrom(_, _, _)
PresFrom(net, k, z) ==
  LET a == Lin(net, k, z)
  IN IF k = NL(net) THEN <<a>> ELSE <<a>> \o PresFrom(net, k + 1, ActV(net.c, a))
Pres(net, x) == PresFrom(net, 1, x)
Out(net, x) == LET p == Pres(net, x) IN p[Len(p)]
Hidden(net, x) == SubSeq(Pres(net, x), 1, NL(net) - 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
PreFlat(net, x) == Flat(Hidden(net, x))
PostFlat(net, x) == ActV(net.c, PreFlat(net, x))

\* Activation patterns
Pattern(net, x) ==
  LET h == Hidden(net, x)
  IN [l \in 1..Len(h) |-> [j \in 1..Len(h[l]) |-> h[l][j][1] >= 0]]
Consistent(net, x, p) ==    \* p is one of the patterns x admits
  LET h == Hidden(net, x)
  IN /\ Len(p) = Len(h)
     /\ \A l \in 1..Len(h) :
          /\ Len(p[l]) = Len(h[l])
          /\ \A j \in 1..Len(h[l]) :
               \/ h[l][j][1] = 0
               \/ p[l][j] = (h[l][j][1] > 0)
NTies(net, x) ==
  LET f == PreFlat(net, x) IN Cardinality({j \in 1..Len(f) : f[j][1] = 0})
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* The affine piece a pattern selects: the layers' affine maps of the input
ScaleRow(c, on, row) == IF on THEN row ELSE VScale(c, row)
RECURSIVE PieceFrom(_, _, _, _, _)
PieceFrom(net, p, k, A, b) ==   \* A, b: input of layer k as a map of x
  LET A1 == MatMul(net.W[k], A)
      b1 == Lin(net, k, b)
  IN IF k = NL(net) THEN [A |-> A1, b |-> b1]
     ELSE PieceFrom(net, p, k + 1,
            TLCEval([j \in 1..Len(A1) |-> ScaleRow(net.c, p[k][j], A1[j])]),
            TLCEval([j \in 1..Len(b1) |-> IF p[k][j] THEN b1[j] ELSE RMul(net.c, b1[j])]))
NIn(net) == Len(net.W[1][1])
Piece(net, p) == PieceFrom(net, p, 1, Eye(NIn(net)), VZero(NIn(net)))
PieceAt(net, p, x) == LET q == Piece(net, p) IN VAdd(MatVec(q.A, x), q.b)
Gradient(net, p) == Piece(net, p).A

\* gradient of the piece times a vector, layer by layer
RECURSIVE GTimesFrom(_, _, _, _)
GTimesFrom(net, p, k, z) ==
  LET a == MatVec(net.W[k], z)
  IN IF k = NL(net) THEN a
     ELSE GTimesFrom(net, p, k + 1,
            TLCEval([j \in 1..Len(a) |-> IF p[k][j] THEN a[j] ELSE RMul(net.c, a[j])]))
GTimes(net, p, y) == GTimesFrom(net, p, 1, y)
\* all the Wz values on the way (bounds of the gradient encoding)
RECURSIVE WzFrom(_, _, _, _)
WzFrom(net, p, k, z) ==
  LET a == MatVec(net.W[k], z)
  IN IF k = NL(net) THEN <<a>>
     ELSE <<a>> \o WzFrom(net, p, k + 1,
            TLCEval([j \in 1..Len(a) |-> IF p[k][j] THEN a[j] ELSE RMul(net.c, a[j])]))

\* Binaries <-> pattern
Widths(net) == [l \in 1..(NL(net) - 1) |-> Len(net.W[l])]
RECURSIVE Before(_, _)
Before(ws, l) == IF l = 1 THEN 0 ELSE Before(ws, l - 1) + ws[l - 1]
BinToPattern(net, beta) ==
  LET ws == Widths(net)
  IN [l \in 1..Len(ws) |-> [j \in 1..ws[l] |-> beta[Before(ws, l) + j] = 1]]

\* All gradients admitted at x (units within tol of zero take both)
AllGradients(net, x, tol) ==
  LET h == Hidden(net, x)
      Free == {<<l, j>> : l \in 1..Len(h), j \in 1..(IF Len(h) = 0 THEN 0 ELSE
               (CHOOSE m \in {Len(h[q]) : q \in 1..Len(h)} :
                  \A q \in 1..Len(h) : Len(h[q]) <= m))}
      Kinks == {u \in Free : u[2] <= Len(h[u[1]]) /\ RLe(RAbs(h[u[1]][u[2]]), tol)}
      P(on) == [l \in 1..Len(h) |-> [j \in 1..Len(h[l]) |->
                 IF <<l, j>> \in Kinks THEN <<l, j>> \in on
                 ELSE h[l][j][1] > 0]]
  IN {Gradient(net, P(on)) : on \in SUBSET Kinks}
=============================================================================

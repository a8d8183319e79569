----------------------------- MODULE ParamCore -----------------------------
(***************************************************************************)
(* The flat parameter vector of a network: layer by layer, weights row by *)
(* row, then the bias (when there is one).                                 *)
(***************************************************************************)
EXTENDS ReluCore
FlatLayer(W, b, bias) == Flat(W) \o (IF bias THEN b ELSE <<>>)
Flatten(Ws, bs, bias) == Flat([k \in 1..Len(Ws) |-> FlatLayer(Ws[k], bs[k], bias)])
NPar(w, bias) ==   \* parameters of a layer list of widths w
  LET RECURSIVE S(_)
      S(k) == IF k = Len(w) THEN 0
              ELSE w[k] * w[k + 1] + (IF bias THEN w[k + 1] ELSE 0) + S(k + 1)
  IN S(1)
RECURSIVE Unflat(_, _, _, _)
Unflat(v, w, bias, k) ==   \* layers k.. of a net of widths w from vector v
  IF k = Len(w) THEN <<>>
  ELSE LET m == w[k] * w[k + 1]
           W == [r \in 1..w[k + 1] |-> SubSeq(v, (r - 1) * w[k] + 1, r * w[k])]
           b == IF bias THEN SubSeq(v, m + 1, m + w[k + 1]) ELSE VZero(w[k + 1])
       IN <<[W |-> W, b |-> b]>> \o
          Unflat(SubSeq(v, m + (IF bias THEN w[k + 1] ELSE 0) + 1, Len(v)), w, bias, k + 1)
Layers(net) == [k \in 1..NL(net) |-> [W |-> net.W[k], b |-> net.b[k]]]
WidthsAll(net) == <<NIn(net)>> \o [k \in 1..NL(net) |-> Len(net.W[k])]
=============================================================================

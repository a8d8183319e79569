-------------------------------- MODULE Cuts --------------------------------
EXTENDS CutCore, ReluCore, TraceLib
Rows(e) == [k \in 1..Len(e.xc) |-> [x |-> e.xc[k], b |-> e.bc[k], k |-> e.kc[k]]]
Set(s) == {s[k] : k \in 1..Len(s)}
\* violated points of a list
Viol(u, e) == {k \in 1..Len(e.px) : RLt(MinRhs(u, e.px[k], e.pb[k]), e.py[k])}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE m \in S : \A q \in S : m <= q
                  IN <<m>> \o Sorted(S \ {m})
ValidAll(u, rows, xs) == \A r \in 1..Len(rows) : \A k \in 1..Len(xs) : CutValidAt(u, rows[r], xs[k])
\* network level: units in order, unit k of layer l at the point
LayerIn(net, pt, l) ==   \* the slice of the point that feeds layer l
  LET off == IF l = 1 THEN 0 ELSE NIn(net) + Before(Widths(net), l - 1)
  IN SubSeq(pt, off + 1, off + Len(net.W[l][1]))
NetUnit(net, lo, up, l, j) ==
  [c |-> net.c, w |-> net.W[l][j], b |-> net.b[l][j],
   lo |-> LayerIn(net, lo, l), up |-> LayerIn(net, up, l)]
Units(net) == Flat([l \in 1..(NL(net) - 1) |-> [j \in 1..Len(net.W[l]) |-> <<l, j>>]])
Gap(e, q) ==   \* by how much the point violates the best cut of unit q
  LET u == NetUnit(e.net, e.lo, e.up, q[1], q[2])
      idx == Before(Widths(e.net), q[1]) + q[2]
  IN RSub(e.pt[NIn(e.net) + idx], MinRhs(u, LayerIn(e.net, e.pt, q[1]), e.beta[idx]))
RowAt(e, r, x, z, b) ==  \* left-hand side minus right-hand side
  RSub(RAdd(Dot(e.rx[r], x), RAdd(Dot(e.rs[r], z), Dot(e.rb[r], b))), e.rr[r])
TrueAssign(e, x) ==
  LET pre == PreFlat(e.net, x)
  IN [z |-> ActV(e.net.c, pre),
      b |-> {[k \in 1..Len(pre) |-> IF pre[k][1] > 0 THEN R1
                                     ELSE IF pre[k][1] < 0 THEN R0 ELSE s] :
               s \in {R0, R1}}]
Split(e) == [x |-> SubSeq(e.pt, 1, NIn(e.net)),
             z |-> SubSeq(e.pt, NIn(e.net) + 1, Len(e.pt))]
V(s, e) ==
  CASE e.op = "indices" ->
         LET ct == Cut(e.u, Set(e.I))
             o == [x |-> e.x, b |-> e.b, k |-> e.k]
         IN C("cut-of-the-index-set", o = ct)
            \cup C("cut-removes-no-solution", ValidAll(e.u, <<o>>, e.xs))
    [] e.op = "find" ->
         C("index-set-of-largest-violation",
           CutRhs(Cut(e.u, Set(e.I)), e.x, e.beta) = MinRhs(e.u, e.x, e.beta))
    [] e.op = "points" ->
         LET vs == Sorted(Viol(e.u, e))
             rows == Rows(e)
         IN C("one-cut-per-violated-point", Len(rows) = Len(vs))
            \cup C("cuts-of-largest-violation",
                   Len(rows) = Len(vs) =>
                     \A r \in 1..Len(rows) :
                       CutRhs(rows[r], e.px[vs[r]], e.pb[vs[r]]) =
                         MinRhs(e.u, e.px[vs[r]], e.pb[vs[r]]))
            \cup C("cut-removes-no-solution", ValidAll(e.u, rows, e.xs))
    [] e.op = "unit" ->
         LET rows == Rows(e)
             n == Len(e.u.w)
             mine == {Cut(e.u, I) : I \in SUBSET (1..n)}
         IN C("cut-removes-no-solution", ValidAll(e.u, rows, e.xs))
            \cup C("cut-of-some-index-set", Set(rows) \subseteq mine)
            \cup (IF e.all THEN
                    C("every-index-set",
                      /\ Len(rows) = Pow2(n) - 2
                      /\ \A I \in SUBSET (1..n) : I # {} /\ I # 1..n =>
                           Cut(e.u, I) \in Set(rows))
                  ELSE {})
    [] e.op = "network" ->
         LET us == Units(e.net)
             sure == {k \in 1..Len(us) : ToTick(Gap(e, us[k])) > e.eps}
             may == {k \in 1..Len(us) : ToTick(Gap(e, us[k])) >= 0 - e.eps}
             p == Split(e)
         IN C("one-cut-per-violated-unit",
              Len(e.rr) >= Cardinality(sure) /\
              Len(e.rr) <= (IF e.eps = 0 THEN Cardinality(sure) ELSE Cardinality(may)))
            \cup C("cut-removes-no-solution",
                   \A r \in 1..Len(e.rr) : \A k \in 1..Len(e.xs) :
                     LET a == TrueAssign(e, e.xs[k]) IN
                     \A b \in a.b : ToTick(RowAt(e, r, e.xs[k], a.z, b)) <= 2)
            \cup C("cuts-of-largest-violation",
                   LET vals == {ToTick(RowAt(e, r, p.x, p.z, e.beta)) : r \in 1..Len(e.rr)}
                   IN /\ \A k \in sure : \E v \in vals : Abs(v - ToTick(Gap(e, us[k]))) <= 3
                      /\ \A v \in vals : \E k \in may : Abs(v - ToTick(Gap(e, us[k]))) <= 3)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

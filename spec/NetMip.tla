------------------------------- MODULE NetMip -------------------------------
(* Mixed-integer encodings of a network: the graph of the network over the *)
(* box, the neuron bounds, and products with the network's gradient.       *)
EXTENDS ReluCore, TraceLib
Both(r, v, t) == NearT(r[1], v, t) /\ NearT(r[2], v, t)
AllBoth(rs, vs) == Len(rs) = Len(vs) /\ \A k \in 1..Len(vs) : Both(rs[k], vs[k], 5)
Bits(rs, pre) == Len(rs) = Len(pre) /\
  \A k \in 1..Len(pre) :
    \/ pre[k][1] = 0 /\ rs[k][1] >= -2 /\ rs[k][2] <= K + 2
    \/ Both(rs[k], IF pre[k][1] > 0 THEN R1 ELSE R0, 2)
Within(v, lo, up) == \A k \in 1..Len(v) :
  LET q == ToTick(v[k]) IN lo[k] <= q + 4 /\ q <= up[k] + 4
SeqLe(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] <= b[k] + 4
\* bounds o (record of tick vectors) sound at x
Sound(net, o, x) ==
  LET ps == Pres(net, x)
      pre == Flat(SubSeq(ps, 1, Len(ps) - 1))
  IN C("neuron-input-bounds-sound", Within(pre, o.prelo, o.preup))
     \cup C("neuron-output-bounds-sound", Within(ActV(net.c, pre), o.postlo, o.postup))
     \cup C("network-output-bounds-sound", Within(ps[Len(ps)], o.outlo, o.outup))
V(s, e) ==
  CASE e.op = "graph" ->
         IF InBox(e.x, e.lo, e.up)
         THEN IF ~e.feas THEN {"input-of-the-box-excluded"}
              ELSE LET ps == Pres(e.net, e.x)
                       pre == Flat(SubSeq(ps, 1, Len(ps) - 1)) IN
                   C("encoded-output-is-the-network", AllBoth(e.out, ps[Len(ps)]))
                   \cup C("binaries-are-the-activations", Bits(e.bin, pre))
         ELSE C("input-outside-the-box-admitted", ~e.feas)
    [] e.op = "bounds" ->
         UNION {UNION {Sound(e.net, e[m], e.xs[k]) : k \in 1..Len(e.xs)} :
                   m \in {"IA", "LP", "MIP", "IA_MIP"}}
         \cup C("bounds-of-the-box", e.boxok)
         \cup C("lp-inside-interval-bounds",
                SeqLe(e.IA.prelo, e.LP.prelo) /\ SeqLe(e.LP.preup, e.IA.preup)
                /\ SeqLe(e.IA.outlo, e.LP.outlo) /\ SeqLe(e.LP.outup, e.IA.outup))
         \cup C("mip-inside-lp-bounds",
                SeqLe(e.LP.prelo, e.MIP.prelo) /\ SeqLe(e.MIP.preup, e.LP.preup)
                /\ SeqLe(e.LP.outlo, e.MIP.outlo) /\ SeqLe(e.MIP.outup, e.LP.outup))
    [] e.op = "attain" ->  \* a state of the box where output/neuron k is extreme
         LET ps == Pres(e.net, e.x)
             v == IF e.what = "out" THEN ps[Len(ps)]
                  ELSE Flat(SubSeq(ps, 1, Len(ps) - 1))
         IN C("mip-bounds-attained", Abs(ToTick(v[e.k]) - e.bound) <= 12)
    [] e.op = "gradprod" ->
         LET p == BinToPattern(e.net, e.beta)
             g == GTimes(e.net, p, e.y)
             wz == WzFrom(e.net, p, 1, e.y)
         IN IF ~InBox(e.y, e.lo, e.up) THEN {}
            ELSE C("gradient-product-admitted", e.feas)
                 \cup (IF e.feas THEN C("gradient-product-exact", AllBoth(e.out, g)) ELSE {})
                 \cup C("product-bounds-sound",
                        Len(e.wzlo) = Len(wz) /\
                        \A l \in 1..Len(wz) : Within(wz[l], e.wzlo[l], e.wzup[l]))
                 \cup C("slack-bounds-sound",
                        /\ Within(e.y, e.zlo[1], e.zup[1])
                        /\ \A l \in 1..(Len(wz) - 1) :
                             Within([j \in 1..Len(wz[l]) |->
                                IF p[l][j] THEN wz[l][j] ELSE RMul(e.net.c, wz[l][j])],
                                e.zlo[l + 1], e.zup[l + 1]))
    [] e.op = "multilinear" ->
         LET p == BinToPattern(e.net, e.beta)
         IN C("multilinear-gradient", <<e.grad>> = Gradient(e.net, p))
            \cup C("products-forced-by-constraints",
                   \A k \in 1..Len(e.alpha) : Both(e.range[k], RInt(e.alpha[k]), 3))
            \cup C("product-index",
                   \A k \in 1..Len(e.idx) :
                      e.alpha[e.idx[k][2] + 1] =
                        (IF \A l \in 1..Len(p) : p[l][e.idx[k][1][l] + 1] THEN 1 ELSE 0))
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

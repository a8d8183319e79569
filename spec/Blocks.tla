------------------------------ MODULE Blocks ------------------------------
EXTENDS BlockCore, TraceLib
V(s, e) ==
  IF e.op = "relaxed" THEN
    \* binaries relaxed: every point of the graph stays admitted
    C("relaxation-admits-the-graph",
      e.feas /\ LET v == ToTick(SatVal(e.p, e.x))
                IN e.out[1] <= v + 3 /\ e.out[2] >= v - 3)
    \cup C("number-of-binaries", e.nb = SatN(e.p))
  ELSE
  C("number-of-binaries", e.nb = NBin(e.op, e.p))
  \cup (IF e.nb # NBin(e.op, e.p) THEN {} ELSE
  UNION {LET o == e.obs[k]
             g == Graph(e.op, e.p, e.x, o.b)
         IN IF ~Judged(e.op, e.p, e.x) THEN {}
            ELSE C(IF g.ok THEN "graph-point-excluded" ELSE "point-off-the-graph-admitted",
                   o.feas = g.ok)
                 \cup (IF o.feas /\ g.ok /\ HasOut(e.op)
                       THEN C("value", Near(o.out[1], g.val) /\ Near(o.out[2], g.val))
                       ELSE {}) : k \in 1..Len(e.obs)})
N(s, e) == s
S0 == 0
=============================================================================

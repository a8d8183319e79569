-------------------------------- MODULE Cost --------------------------------
EXTENDS CostCore, TraceLib
QuadT(Q, t) == CDotT([k \in 1..Len(t) |-> R1],
                     [k \in 1..Len(t) |-> TMul(CDotT(Q[k], t), t[k])])
Pairs(cost, xs, keep) ==
  LET c == CostsToGo(cost, xs)
  IN {<<xs[k], c[k]>> : k \in {j \in 1..Len(xs) : keep[j]}}
Kept(pr, xs) == [k \in 1..Len(xs) |-> IF pr.w = <<>> THEN TRUE ELSE ~RLt(pr.c, Dot(pr.w, xs[k]))]
Count(f) == Cardinality({k \in DOMAIN f : f[k]})
ObsPairs(o) == {<<o[k][1], o[k][2]>> : k \in 1..Len(o)}
V(s, e) ==
  CASE e.op = "discrete" ->
         LET xs == Traj(e.sys, e.goal, <<e.x0>>, e.T)
             left == LeftAt(e.sys, e.goal, xs, e.T)
         IN IF ~Unique(e.sys, xs) THEN {}
            ELSE IF left THEN C("leaving-trajectory-refused", e.raised)
            ELSE IF e.raised THEN {"kept-trajectory-refused"}
            ELSE C("trajectory-is-the-simulation", e.xs = xs)
                 \cup C("cost-to-go-sums-stage-costs", e.costs = CostsToGo(e.cost, xs))
                 \cup C("total-cost", e.total = TailCost(e.cost, xs, 1))
                 \cup C("initial-state-unchanged", e.x0after = e.x0)
    [] e.op = "samples" ->    \* one initial state
         LET xs == Traj(e.sys, e.goal, <<e.x0>>, e.T)
             left == LeftAt(e.sys, e.goal, xs, e.T)
             keep == Kept(e.prune, xs)
             last == Modes(e.sys, xs[Len(xs)]) = {}
         IN IF ~Unique(e.sys, xs) THEN {}
            ELSE IF left THEN C("leaving-sample-skipped", ~e.raised /\ e.pairs = <<>>)
            ELSE IF e.raised THEN {"sampling-raised"}
            ELSE IF last /\ e.pairs = <<>> THEN {}
            ELSE C("samples-are-the-unpruned-states-with-cost",
                   Len(e.pairs) = Count(keep) /\ ObsPairs(e.pairs) = Pairs(e.cost, xs, keep))
    [] e.op = "list" -> C("list-is-the-concatenation",
                          ~e.raised /\ e.pairs = e.single)
    [] e.op = "flow" ->
         \* states and costs in ticks at times ts; the stage cost integrates
         \* to e.kind: "time" (cost 1), "linear" (cost -w.f), "quad" (-d(x'Qx))
         LET n == Len(e.xs)
             end == e.xs[n]
             Val(x) == CASE e.kind = "time" -> 0
                         [] e.kind = "linear" -> CDotT(e.w, x)
                         [] e.kind = "quad" -> QuadT(e.Q, x)
         IN C("starts-at-the-state", IVNear(e.xs[1], e.x0, 1))
            \cup C("one-cost-per-state", Len(e.costs) = n)
            \cup C("total-is-the-first-cost", Abs(e.total - e.costs[1]) <= 1)
            \cup C("cost-integrates-along-the-flow",
                   \A k \in 1..n :
                     Abs(e.costs[k] - (IF e.kind = "time" THEN e.ts[n] - e.ts[k]
                                       ELSE Val(e.xs[k]) - Val(end))) <= 6)
            \cup C("ends-at-the-horizon-or-goal",
                   \/ Abs(e.ts[n] - e.T) <= 1
                   \/ e.goal # <<>> /\ e.ts[n] < e.T /\ IVNear(end, e.goal, 6))
            \cup C("stops-at-the-goal",
                   e.goal # <<>> =>
                     \A k \in 1..(n - 1) : k = 1 \/ ~IVNear(e.xs[k], e.goal, 1))
    [] e.op = "flowlist" ->
         C("leaving-sample-skipped", (e.leaves /\ ~e.raised) => e.count = 0)
         \cup C("kept-sample-included", ~e.leaves => ~e.raised /\ e.count > 0)
         \cup C("sampling-raised", ~e.raised)
         \cup C("pairs-of-the-trajectory", ~e.leaves => e.same)
    [] e.op = "partition" ->
         LET b == e.box
             dx == e.nx
             X(v) == SubSeq(v, 1, dx)
             Match(o, f) == VNearT(o[1], Centre(b, f), 2) /\ VNearT(o[2], CellLo(b, f), 2)
                            /\ VNearT(o[3], CellUp(b, f), 2)
         IN C("one-row-per-cell", Len(e.cells) = Cardinality(CellIdx(b)))
            \cup C("every-cell-present",
                   \A f \in CellIdx(b) : \E k \in 1..Len(e.cells) : Match(e.cells[k], f))
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

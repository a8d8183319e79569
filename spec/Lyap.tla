-------------------------------- MODULE Lyap --------------------------------
(* Recorded calls on candidate Lyapunov functions and their certificates.  *)
EXTENDS BarCore, TraceLib
Elems(s) == {s[k] : k \in 1..Len(s)}
Tol == <<1, 1024>>
\* tolerance, in ticks, of an attained optimum
AtT(e) == IF e.exact THEN 12 ELSE 80
InB(e) == InBox(e.x, e.lo, e.up)
HasBand(e) == e.blo # <<>> \/ e.bup # <<>>
\* values of the decrease quantity admitted at x
Decs(e, x) == {DecGap(e.L, e.type, e.eps, x, y) : y \in NextIn(e.T, x, e.lo, e.up, R0)}
Admitted(e, x) == InBox(x, e.lo, e.up) /\ InBand(e.L, x, e.blo, e.bup, R0)
DecAt(e, x) == IF Admitted(e, x) THEN Decs(e, x) ELSE {}
\* the same near x, when x is a rounded solution
DecNear(e) ==
  IF e.exact
  THEN IF InBoxT(e.x, e.lo, e.up, Tol) /\ InBand(e.L, e.x, e.blo, e.bup, Tol)
       THEN {DecGap(e.L, e.type, e.eps, e.x, y) : y \in NextInT(e.T, e.x, e.lo, e.up, Tol)}
       ELSE {}
  ELSE IF InBoxT(e.x, e.lo, e.up, Tol) /\ InBand(e.L, e.x, e.blo, e.bup, <<1, 64>>)
  THEN {DecGap(e.L, e.type, e.eps, e.x, y) : y \in NextInT(e.T, e.x, e.lo, e.up, <<1, 64>>)}
  ELSE {}
\* continuous time
FlowAt(e, x) == IF Admitted(e, x) THEN Flows(e.L, e.T, e.eps, x, R0) ELSE {}
FlowMust(e, x) ==
  IF Admitted(e, x)
  THEN {Flow(e.L, e.eps, x, g, y) : g \in LimitGrads(e.L, x, e.lo, e.up), y \in Next1(e.T, x)}
  ELSE {}
FlowNear(e) ==
  IF /\ InBoxT(e.x, e.lo, e.up, Tol)
     /\ InBand(e.L, e.x, e.blo, e.bup, IF e.exact THEN Tol ELSE <<1, 64>>)
  THEN FlowsT(e.L, e.T, e.eps, e.x, IF e.exact THEN Tol ELSE <<1, 64>>)
  ELSE {}
Below(q, bound) == ToTick(q) <= bound + 6

\* ---- losses
Hinge(v) == RPos(v)
Reduced(red, hs, ws) ==
  CASE red = "mean" -> RDiv(RSum([k \in 1..Len(hs) |-> RMul(ws[k], hs[k])]), RInt(Len(hs)))
    [] red = "max" -> RMaxSeq(hs)
\* o (ticks) is the 4-norm of hs, decided by bracketing
Fourth(t) == TMul(TMul(t, t), TMul(t, t))
\* hs, hb: least and greatest admitted hinges
NormBracket(hs, hb, o) ==
  LET s == 1 + o \div (8 * K)
      Sum(h) == ISum([k \in 1..Len(h) |-> Fourth(ToTick(h[k]) \div s)])
      oo == o \div s
  IN /\ \A k \in 1..Len(hs) : Abs(ToTick(hs[k]) \div s) <= oo + 4
     /\ (\A k \in 1..Len(hb) : Abs(ToTick(hb[k]) \div s) <= oo + 4)
          => Fourth(Max2(oo - 6, 0)) <= Sum(hb) + 4
     /\ Sum(hs) <= Fourth(oo + 6) + 4
LossIs(e, hs, hb) ==
  IF e.red = "4norm" THEN NormBracket(hs, hb, e.loss)
  ELSE /\ ToTick(Reduced(e.red, hs, e.ws)) - 4 <= e.loss
       /\ e.loss <= ToTick(Reduced(e.red, hb, e.ws)) + 4
\* admitted values of the quantity behind a loss
FlowType(e, k, g) ==
  LET d == Dot(g, e.ys[k]) IN
  CASE e.type = "lower" -> RAdd(d, RMul(e.eps, Value(e.L, e.xs[k])))
    [] e.type = "upper" -> RNeg(RAdd(d, RMul(e.eps, Value(e.L, e.xs[k]))))
    [] e.type = "asymp" -> RAdd(d, RMul(e.eps, Err(e.L, e.xs[k])))
Gaps(e, k) ==
  CASE e.kind = "positivity" -> {PosGap(e.L, e.eps, e.xs[k])}
    [] e.kind = "decrease" -> {DecGap(e.L, e.type, e.eps, e.xs[k], e.ys[k])}
    [] e.kind = "barrier" -> {BarGap(e.B, e.eps, e.xs[k], e.ys[k])}
    [] e.kind = "flow" -> {FlowType(e, k, g) : g \in VGrads(e.L, e.xs[k], R0)}

\* ---- region of attraction
OnBorder(x, lo, up) == InBox(x, lo, up) /\ \E k \in 1..Len(x) : x[k] = lo[k] \/ x[k] = up[k]
OutOrBorder(y, lo, up, biglo, bigup, tol) ==
  /\ InBoxT(y, biglo, bigup, tol)
  /\ \E k \in 1..Len(y) : RLe(y[k], RAdd(lo[k], tol)) \/ RLe(RSub(up[k], tol), y[k])
\* states that limit the level: one successor escapes (or reaches the border)
\* of the box, or the state is on the border and one successor is inside
Escapes(e, x, Nx(_), tol) == \E y \in Nx(x) : OutOrBorder(y, e.lo, e.up, e.biglo, e.bigup, tol)
Limits(e, x) ==
  /\ InBox(x, e.lo, e.up)
  /\ \/ Escapes(e, x, LAMBDA z : Next1(e.T, z), R0)
     \/ OnBorder(x, e.lo, e.up) /\ NextIn(e.T, x, e.lo, e.up, R0) # {}
LimitsNear(e, x) ==
  /\ InBoxT(x, e.lo, e.up, Tol)
  /\ \/ Escapes(e, x, LAMBDA z : NextT(e.T, z, Tol), <<1, 64>>)
     \/ /\ \E k \in 1..Len(x) : RLe(x[k], RAdd(e.lo[k], Tol)) \/ RLe(RSub(e.up[k], Tol), x[k])
        /\ NextInT(e.T, x, e.lo, e.up, <<1, 64>>) # {}

Last(q, k) == IF Len(q) > k THEN SubSeq(q, Len(q) - k + 1, Len(q)) ELSE q
\* ---- adversarial states
\* solver solutions <<objective in ticks, positive>> that are asked for
Wanted(e) ==
  SelectSeq(SubSeq(e.ent, 1, IF Len(e.ent) < e.limit THEN Len(e.ent) ELSE e.limit),
            LAMBDA z : ~e.only \/ z[2])
PosAt(r) == IF r.exact THEN 12 ELSE 80
PoolClauses(e, GapOk(_, _)) ==
  LET w == Wanted(e) IN
  C("violating-solutions-returned-exactly", Len(e.rets) = Len(w))
  \cup C("pool-filled-as-configured", Len(e.ent) >= e.avail)
  \cup C("best-solution-first", \A k \in 1..(Len(e.ent) - 1) : e.ent[k][1] + 2 >= e.ent[k + 1][1])
  \cup C("reported-optimum-is-the-best-solution", e.ent # <<>> => Abs(e.obj - e.ent[1][1]) <= 2)
  \cup C("adversarial-state-in-the-box", \A k \in 1..Len(e.rets) : InBoxT(e.rets[k].x, e.lo, e.up, Tol))
  \cup C("adversarial-state-attains-its-objective",
         Len(e.rets) = Len(w) => \A k \in 1..Len(w) : GapOk(e.rets[k], w[k][1]))

V(s, e) ==
  CASE e.op = "value" ->
         LET v == Value(e.L, e.x) IN
         C("candidate-value", e.v = v)
         \cup C("zero-at-equilibrium", e.x = e.L.xs => e.v = R0)
    [] e.op = "values" ->
         C("batched-value-is-row-by-row",
           Len(e.vs) = Len(e.xs) /\ \A k \in 1..Len(e.xs) : e.vs[k] = Value(e.L, e.xs[k]))
    [] e.op = "grads" -> C("gradient-set", Elems(e.gs) = VGrads(e.L, e.x, e.tol))
    [] e.op = "gradrow" ->
         C("batched-gradient-in-set",
           e.g \in {VAdd(g[1], VScale(e.L.lam, VecMat(h, e.L.R))) :
                      g \in AllGradients(e.L.net, e.x, R0),
                      h \in L1Grads(ErrV(e.L, e.x), R0, {R0}, Len(e.L.R))})
    [] e.op = "refuse" ->
         C("equilibrium-outside-the-box-refused", e.raised <=> ~InBox(e.x, e.lo, e.up))
    [] e.op = "errs" ->
         LET w == ErrV(e.L, e.x) IN
         C("state-of-the-box-excluded", InB(e) => e.feas)
         \cup C("encoded-error-norm",
                e.feas => /\ Len(e.out) = Len(w)
                          /\ \A k \in 1..Len(w) :
                               /\ NearT(e.out[k][1], RAbs(w[k]), 4)
                               /\ NearT(e.out[k][2], RAbs(w[k]), 4))
         \cup C("sign-indicators",
                e.feas => \A k \in 1..Len(e.bits) :
                  IF Len(e.bits[k]) = 1
                  THEN /\ w[k][1] > 0 => e.bits[k][1] = <<K, K>>
                       /\ w[k][1] < 0 => e.bits[k][1] = <<0, 0>>
                  ELSE /\ w[k][1] > 0 => e.bits[k] = <<<<0, 0>>, <<0, 0>>, <<K, K>>>>
                       /\ w[k][1] < 0 => e.bits[k] = <<<<K, K>>, <<0, 0>>, <<0, 0>>>>)
    [] e.op = "venc" ->
         C("state-of-the-box-excluded", InB(e) => e.feas)
         \cup C("encoded-value-is-the-candidate",
                (e.feas /\ InB(e)) => NearT(e.obj[1], Value(e.L, e.x), 4)
                                      /\ NearT(e.obj[2], Value(e.L, e.x), 4))
    [] e.op = "pos" ->
         LET v == PosGap(e.L, e.eps, e.x) IN
         C("state-of-the-box-excluded", InB(e) => e.feas)
         \cup C("state-outside-the-box-admitted", e.feas => InB(e))
         \cup C("program-value-is-the-positivity-gap",
                (e.feas /\ InB(e)) => NearT(e.obj[1], v, 6) /\ NearT(e.obj[2], v, 6))
    [] e.op = "posopt" ->
         C("optimum-found", e.found)
         \cup (IF ~e.found THEN {} ELSE
               C("optimum-bounds-every-state",
                 \A k \in 1..Len(e.grid) :
                   InBox(e.grid[k], e.lo, e.up) => Below(PosGap(e.L, e.eps, e.grid[k]), e.bound))
               \cup C("optimum-attained",
                      NearT(e.bound, PosGap(e.L, e.eps, e.x), AtT(e))))
    [] e.op = "dec" ->
         LET ds == DecAt(e, e.x) IN
         IF e.keep   \* only states with a nonnegative value must stay
         THEN LET m == IF ds = {} THEN RInt(-1) ELSE SetMax(ds) IN
              C("adversarial-state-lost",
                m[1] >= 0 => e.feas /\ NearT(e.obj[2], m, 6))
              \cup C("program-value-is-the-decrease",
                     e.feas => /\ ds # {}
                               /\ \A k \in 1..2 : \E d \in ds : NearT(e.obj[k], d, 6))
         ELSE C("state-of-the-box-excluded", ds # {} => e.feas)
              \cup C("inadmissible-state-admitted", e.feas => ds # {})
              \cup C("program-value-is-the-decrease",
                     (e.feas /\ ds # {}) =>
                       NearT(e.obj[1], SetMin(ds), 6) /\ NearT(e.obj[2], SetMax(ds), 6))
    [] e.op = "decopt" ->
         (IF ~e.found
          THEN C("optimum-found", \A k \in 1..Len(e.grid) : DecAt(e, e.grid[k]) = {})
          ELSE C("optimum-bounds-every-state",
                 \A k \in 1..Len(e.grid) : \A d \in DecAt(e, e.grid[k]) : Below(d, e.bound))
               \cup C("optimum-attained", \E d \in DecNear(e) : NearT(e.bound, d, AtT(e))))
    [] e.op = "list" ->
         C("decrease-list", Elems(e.ds) = {DecGap(e.L, "lower", e.eps, e.x, y) : y \in Next1(e.T, e.x)})
    [] e.op = "warm" ->
         C("warm-start-is-a-pattern-of-the-state",
           Consistent(e.net, e.x, BinToPattern(e.net, e.start)))
    [] e.op = "loss" ->
         LET gs == [k \in 1..Len(e.xs) |-> {Hinge(RAdd(g, e.margin)) : g \in Gaps(e, k)}]
             hs == [k \in 1..Len(e.xs) |-> SetMin(gs[k])]
             hb == [k \in 1..Len(e.xs) |-> SetMax(gs[k])]
         IN
         C("loss-is-the-reduced-hinge", LossIs(e, hs, hb))
         \cup C("loss-zero-iff-no-sample-violates",
                (\A k \in 1..Len(e.ws) : e.ws[k][1] > 0) =>
                  /\ e.zero => \A k \in 1..Len(hs) : hs[k] = R0
                  /\ (\A k \in 1..Len(hb) : hb[k] = R0) => e.zero)
    [] e.op = "flow" ->
         LET ds == FlowAt(e, e.x)
             must == FlowMust(e, e.x)
         IN
         C("state-of-the-box-excluded", ds # {} => e.feas)
         \cup C("inadmissible-state-admitted", (e.feas /\ ~e.relaxed) => ds # {})
         \cup C("program-value-is-the-derivative",
                (e.feas /\ ds # {}) =>
                  IF e.relaxed
                  THEN \A d \in must : e.obj[1] <= ToTick(d) + 6 /\ ToTick(d) <= e.obj[2] + 6
                  ELSE /\ \A k \in 1..2 : \E d \in ds : NearT(e.obj[k], d, 6)
                       /\ \A d \in must : e.obj[1] <= ToTick(d) + 6 /\ ToTick(d) <= e.obj[2] + 6)
    [] e.op = "flowopt" ->
         (IF ~e.found
          THEN C("optimum-found", \A k \in 1..Len(e.grid) : FlowAt(e, e.grid[k]) = {})
          ELSE C("optimum-bounds-every-state",
                 \A k \in 1..Len(e.grid) : \A d \in FlowMust(e, e.grid[k]) : Below(d, e.bound))
               \cup C("optimum-attained", \E d \in FlowNear(e) : NearT(e.bound, d, AtT(e))))
    [] e.op = "flows" ->
         C("derivative-list", Elems(e.ds) = Flows(e.L, e.T, e.eps, e.x, e.tol))
    [] e.op = "border" ->
         LET on == OnBorder(e.x, e.lo, e.up) IN
         C("border-state-excluded", on => e.feas)
         \cup C("interior-state-admitted", e.feas => on)
         \cup C("border-value", (on /\ e.feas) => NearT(e.obj[1], Value(e.L, e.x), 6)
                                                  /\ NearT(e.obj[2], Value(e.L, e.x), 6))
    [] e.op = "borderopt" ->
         C("optimum-found", e.found)
         \cup (IF ~e.found THEN {} ELSE
               C("border-minimum-bounds-the-border",
                 \A k \in 1..Len(e.grid) :
                   OnBorder(e.grid[k], e.lo, e.up) =>
                     ToTick(Value(e.L, e.grid[k])) + 6 >= e.bound)
               \cup C("border-minimum-attained",
                      /\ NearT(e.bound, Value(e.L, e.x), AtT(e))
                      /\ \E k \in 1..Len(e.x) : RLe(e.x[k], RAdd(e.lo[k], Tol)) \/ RLe(RSub(e.up[k], Tol), e.x[k])))
    [] e.op = "band" ->
         C("band-keeps-exactly-its-states", e.feas = (InB(e) /\ InBand(e.L, e.x, e.blo, e.bup, R0)))
    [] e.op = "roa" ->    \* level: ticks, or "none" (infinite)
         C("level-clear-of-escaping-and-border-states",
           \A k \in 1..Len(e.grid) : Limits(e, e.grid[k]) =>
             e.fin /\ ToTick(Value(e.L, e.grid[k])) + 6 >= e.level)
         \cup C("level-at-most-the-verified-level", e.cap # <<>> => e.fin /\ e.level <= ToTick(e.cap[1]) + 3)
         \cup C("level-attained",
                IF e.fin
                THEN \/ e.cap # <<>> /\ NearT(e.level, e.cap[1], 3)
                     \/ \E k \in 1..Len(e.args) :
                          LimitsNear(e, e.args[k]) /\ NearT(e.level, Value(e.L, e.args[k]), 80)
                ELSE e.cap = <<>>)
    [] e.op = "pool" ->
         IF e.kind = "positivity"
         THEN PoolClauses(e, LAMBDA r, o : NearT(o, PosGap(e.L, e.eps, r.x), PosAt(r)))
         ELSE \* a border state of a closed loop has several successors, and
              \* the program may have used another one than the recorded one
              LET many(r) == e.T.loop /\ Cardinality(NextT(e.T, r.x, <<1, 64>>)) > 1 IN
              PoolClauses(e, LAMBDA r, o :
                IF many(r)
                THEN \E y \in NextInT(e.T, r.x, e.lo, e.up, <<1, 64>>) :
                       NearT(o, DecGap(e.L, e.type, e.eps, r.x, y), PosAt(r))
                ELSE NearT(o, DecGap(e.L, e.type, e.eps, r.x, r.y), PosAt(r)))
              \cup C("next-state-is-a-successor",
                     \A k \in 1..Len(e.rets) : \E y \in NextT(e.T, e.rets[k].x, <<1, 64>>) :
                       InBoxT(e.rets[k].y, y, y, <<1, 64>>))
              \cup C("next-state-in-the-box",
                     \A k \in 1..Len(e.rets) :
                       InBoxT(e.rets[k].y, e.lo, e.up, <<1, 64>>) \/ many(e.rets[k]))
    [] e.op = "total" ->   \* parts, weights (<<>>: not given) and what they weigh
         C("loss-is-the-sum-of-its-parts", Abs(e.loss - ISum(e.parts)) <= 6)
         \cup UNION {
           LET w == e.ws[k]
               q == e.qs[k]
           IN C("disabled-term-absent",
                (w = <<>> \/ w[1] = R0 \/ q = <<>>) => e.parts[k] = 0)
              \cup C("unwanted-program-reported", (k \in 3..4 /\ w = <<>>) => q = <<>>)
              \cup C("reported-certificate-missing", (k \in 3..4 /\ w # <<>>) => q # <<>>)
              \cup C("part-is-weight-times-its-quantity",
                     (w # <<>> /\ w[1] # R0 /\ q # <<>>) =>
                       NearT(e.parts[k], RMul(w[1], Norm(q[1], K)), 4))
           : k \in 1..5}
    [] e.op = "pools" ->
         C("adversarial-states-appended-when-asked",
           e.got = IF e.add THEN e.given \o e.adv ELSE e.given)
    [] e.op = "sloss" ->   \* reduced hinge of the last samples of a pool
         LET xs == Last(e.xs, e.cap)
             ys == Last(e.ys, e.cap)
             G(k) == IF e.kind = "positivity" THEN PosGap(e.L, e.eps, xs[k])
                     ELSE DecGap(e.L, e.type, e.eps, xs[k], ys[k])
             hs == [k \in 1..Len(xs) |-> ToTick(Hinge(RAdd(G(k), e.margin)))]
             want == CASE e.red = "mean" -> ISum(hs) \div Len(hs)
                       [] e.red = "max" -> CHOOSE m \in Elems(hs) : \A v \in Elems(hs) : v <= m
         IN C("sample-part-of-the-most-recent-samples",
              Abs(e.loss - want) <= IF e.exact THEN 8 ELSE 80)
    [] e.op = "gapmip" ->
         C("border-extremes-bound-the-border",
           \A k \in 1..Len(e.grid) : OnBorder(e.grid[k], e.lo, e.up) =>
             LET v == ToTick(Value(e.L, e.grid[k])) IN e.vmin <= v + 6 /\ v <= e.vmax + 6)
         \cup C("border-extremes-attained",
                \A k \in 1..2 :
                  LET r == e.ends[k] IN
                  /\ NearT(IF k = 1 THEN e.vmin ELSE e.vmax, Value(e.L, r.x), PosAt(r))
                  /\ InBoxT(r.x, e.lo, e.up, Tol)
                  /\ \E j \in 1..Len(r.x) : RLe(r.x[j], RAdd(e.lo[j], Tol)) \/ RLe(RSub(e.up[j], Tol), r.x[j]))
         \cup C("gap-is-the-difference", Abs(e.gap - (e.vmax - e.vmin)) <= 8)
    [] e.op = "gsum" ->   \* gradients: of the loss, and of its weighted terms
         C("gradient-is-that-of-the-sum",
           \A k \in 1..Len(e.g) : Abs(e.g[k] - ISum([j \in 1..Len(e.terms) |-> e.terms[j][k]])) <= 8)
    [] e.op = "slope" ->  \* directional derivative and difference quotients, both sides
         C("gradient-is-the-derivative",
           Abs(e.fwd - e.bwd) <= 8 => Abs(e.slope - e.fwd) <= 40)
    [] e.op = "early" ->   \* a search that may stop at the first solution above a threshold
         C("stopped-only-above-the-threshold", e.stopped => e.above)
         \cup C("not-stopped-although-above", e.above => e.stopped)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

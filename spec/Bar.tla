-------------------------------- MODULE Bar --------------------------------
(* Recorded calls on barrier candidates and their certificates.            *)
EXTENDS BarCore, TraceLib
Tol == <<1, 1024>>
AtT(e) == IF e.exact THEN 12 ELSE 80
Signed(e, x) == IF e.safe THEN RNeg(Bar(e.B, x)) ELSE Bar(e.B, x)
Member(e, x) == InBox(x, e.lo, e.up) /\ InRegion(e.region, x, R0)
Gaps(e, x) ==
  IF InBox(x, e.lo, e.up)
  THEN {BarGap(e.B, e.eps, x, y) : y \in NextIn(e.T, x, e.lo, e.up, R0)} ELSE {}
GapsNear(e) ==
  IF ~InBoxT(e.x, e.lo, e.up, Tol) THEN {}
  ELSE IF e.exact
  THEN {BarGap(e.B, e.eps, e.x, y) : y \in NextInT(e.T, e.x, e.lo, e.up, Tol)}
  ELSE {BarGap(e.B, e.eps, e.x, y) : y \in NextInT(e.T, e.x, e.lo, e.up, <<1, 64>>)}
Below(q, bound) == ToTick(q) <= bound + 6
\* ---- adversarial states: solver solutions <<objective in ticks, positive>>
Wanted(e) ==
  SelectSeq(SubSeq(e.ent, 1, IF Len(e.ent) < e.limit THEN Len(e.ent) ELSE e.limit),
            LAMBDA z : ~e.only \/ z[2])
PosAt(r) == IF r.exact THEN 12 ELSE 80
PoolClauses(e, GapOk(_, _)) ==
  LET w == Wanted(e) IN
  C("violating-solutions-returned-exactly", Len(e.rets) = Len(w))
  \cup C("pool-filled-as-configured", Len(e.ent) >= e.avail)
  \cup C("best-solution-first", \A k \in 1..(Len(e.ent) - 1) : e.ent[k][1] + 2 >= e.ent[k + 1][1])
  \cup C("reported-optimum-is-the-best-solution", e.ent # <<>> => Abs(e.obj - e.ent[1][1]) <= 2)
  \cup C("adversarial-state-in-the-box", \A k \in 1..Len(e.rets) : InBoxT(e.rets[k].x, e.lo, e.up, Tol))
  \cup C("adversarial-state-attains-its-objective",
         Len(e.rets) = Len(w) => \A k \in 1..Len(w) : GapOk(e.rets[k], w[k][1]))
V(s, e) ==
  CASE e.op = "value" ->
         C("barrier-value", e.v = Bar(e.B, e.x))
         \cup C("reference-state-has-the-given-value", e.x = e.B.xs => e.v = e.B.c)
    [] e.op = "values" ->
         C("batched-value-is-row-by-row",
           Len(e.vs) = Len(e.xs) /\ \A k \in 1..Len(e.xs) : e.vs[k] = Bar(e.B, e.xs[k]))
    [] e.op = "region" ->
         C("state-of-the-region-excluded", Member(e, e.x) => e.feas)
         \cup C("state-outside-the-region-admitted", e.feas => Member(e, e.x))
         \cup C("program-value-is-the-signed-barrier",
                (e.feas /\ Member(e, e.x)) => NearT(e.obj[1], Signed(e, e.x), 6)
                                              /\ NearT(e.obj[2], Signed(e, e.x), 6))
    [] e.op = "regopt" ->
         (IF ~e.found
          THEN C("optimum-found", \A k \in 1..Len(e.grid) : ~Member(e, e.grid[k]))
          ELSE C("optimum-bounds-the-region",
                 \A k \in 1..Len(e.grid) : Member(e, e.grid[k]) => Below(Signed(e, e.grid[k]), e.bound))
               \cup C("optimum-attained",
                      /\ InBoxT(e.x, e.lo, e.up, Tol) /\ InRegion(e.region, e.x, Tol)
                      /\ NearT(e.bound, Signed(e, e.x), AtT(e))))
    [] e.op = "dec" ->
         LET ds == Gaps(e, e.x) IN
         C("state-of-the-box-excluded", ds # {} => e.feas)
         \cup C("inadmissible-state-admitted", (e.feas /\ ~e.relaxed) => ds # {})
         \cup C("program-value-is-the-decrease",
                (e.feas /\ ds # {}) =>
                  IF e.relaxed
                  THEN e.obj[1] <= ToTick(SetMin(ds)) + 6 /\ ToTick(SetMax(ds)) <= e.obj[2] + 6
                  ELSE NearT(e.obj[1], SetMin(ds), 6) /\ NearT(e.obj[2], SetMax(ds), 6))
    [] e.op = "decopt" ->
         (IF ~e.found
          THEN C("optimum-found", \A k \in 1..Len(e.grid) : Gaps(e, e.grid[k]) = {})
          ELSE C("optimum-bounds-every-state",
                 \A k \in 1..Len(e.grid) : \A d \in Gaps(e, e.grid[k]) : Below(d, e.bound))
               \cup C("optimum-attained", \E d \in GapsNear(e) : NearT(e.bound, d, AtT(e))))
    [] e.op = "point" ->
         C("pointwise-decrease", e.d \in {BarGap(e.B, e.eps, e.x, y) : y \in Next1(e.T, e.x)})
    [] e.op = "border" ->   \* an encoded box border at a fixed state
         C("border-kept-exactly",
           e.feas = (InBox(e.x, e.lo, e.up) /\ \E k \in 1..Len(e.x) : e.x[k] = e.lo[k] \/ e.x[k] = e.up[k]))
    [] e.op = "pool" ->
         IF e.kind = "value"
         THEN PoolClauses(e, LAMBDA r, o : NearT(o, Signed(e, r.x), PosAt(r)))
              \cup C("adversarial-state-in-the-region",
                     \A k \in 1..Len(e.rets) : InRegion(e.region, e.rets[k].x, Tol))
         ELSE PoolClauses(e, LAMBDA r, o :
                \E y \in NextInT(e.T, r.x, e.lo, e.up, <<1, 64>>) :
                  NearT(o, BarGap(e.B, e.eps, r.x, y), PosAt(r)))
    [] e.op = "pools" ->
         C("adversarial-states-appended-when-asked", e.got = e.given \o e.adv)
    [] e.op = "part" ->    \* weighted certificate terms, one per region
         C("disabled-term-absent", (e.w = <<>> \/ e.w[1] = R0) => e.parts = <<>>)
         \cup C("reported-certificate-missing", (e.w # <<>>) <=> (e.qs # <<>> \/ e.none))
         \cup C("part-is-weight-times-its-quantity",
                (e.w # <<>> /\ e.w[1] # R0) =>
                  /\ Len(e.parts) = Len(e.qs)
                  /\ \A k \in 1..Len(e.qs) : NearT(e.parts[k], RMul(e.w[1], Norm(e.qs[k], K)), 4))
    [] e.op = "sloss" ->
         LET xs == SubSeq(e.xs, IF Len(e.xs) > e.cap THEN Len(e.xs) - e.cap + 1 ELSE 1, Len(e.xs))
             H(x) == CASE e.kind = "safe" -> {RPos(RNeg(Bar(e.B, x)))}
                       [] e.kind = "unsafe" -> {RPos(Bar(e.B, x))}
                       [] e.kind = "decrease" -> {RPos(BarGap(e.B, e.eps, x, y)) : y \in NextT(e.T, x, <<1, 64>>)}
             lo == [k \in 1..Len(xs) |-> ToTick(SetMin(H(xs[k])))]
             up == [k \in 1..Len(xs) |-> ToTick(SetMax(H(xs[k])))]
             Red(h) == CASE e.red = "mean" -> ISum(h) \div Len(h)
                         [] e.red = "max" -> CHOOSE m \in {h[k] : k \in 1..Len(h)} : \A k \in 1..Len(h) : h[k] <= m
             tol == IF e.exact THEN 8 ELSE 80
         IN IF e.w = R0 \/ xs = <<>> THEN C("disabled-term-absent", e.loss = 0)
            ELSE C("sample-part-of-the-most-recent-samples",
                   /\ e.loss <= ToTick(RMul(e.w, Norm(Red(up), K))) + tol
                   /\ e.loss >= ToTick(RMul(e.w, Norm(Red(lo), K))) - tol)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

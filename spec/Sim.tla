--------------------------------- MODULE Sim ---------------------------------
EXTENDS SimCore, TraceLib
ImgNear(o, e) == Len(o) = Len(e) /\ \A k \in 1..Len(e) : MNear(o[k], e[k])
Setup(e) == [clock0 |-> e.clock0, size |-> e.size, gray |-> e.gray]
RowsOk(rows, f) == \A k \in 1..Len(rows) : f[k]
V(s, e) ==
  CASE e.op = "setup" -> 
         C("world-settled-before-saving", e.clock0 = 120)
         \cup C("joints-move-freely", e.motors = [j \in 1..e.joints |-> j - 1])
         \cup C("gravity-down-and-step-rate",
                VNearT(e.gravity, <<R0, R0, <<-98, 10>>>>, 1) /\ NearT(e.hz, <<240, 1>>, 1))
    [] e.op = "nonsquare" -> C("images-of-unequal-sides", e.ok)
    [] e.op = "sample" ->
         LET r == Sample(s, e.x0, e.dt) IN
         C("successor-after-the-requested-duration", VNear(e.x, r.x))
         \cup C("images-at-start-and-half-time", ImgNear(e.X, r.X))
         \cup C("image-at-the-end", ImgNear(e.Xn, r.Xn))
         \cup C("pixels-in-unit-interval", e.inunit)
    [] e.op = "rollout" ->
         LET xs == Roll(s, e.x0, e.dt, e.n)
             Xs == RollX(s, e.x0, e.dt, e.n)
         IN C("rollout-states-are-consecutive", MNear(e.x, xs))
            \cup C("rollout-images-match-states",
                   Len(e.X) = Len(Xs) /\ \A k \in 1..Len(Xs) : ImgNear(e.X[k], Xs[k]))
    [] e.op = "dataset" ->
         \* one starting state per rollout, given
         LET row(k) == ((k - 1) % e.n) + 1
             x0(k) == e.starts[((k - 1) \div e.n) + 1]
             xs(k) == Roll(s, x0(k), e.dt, e.n)
             Xs(k) == RollX(s, x0(k), e.dt, e.n)
             T == Len(e.starts) * e.n
         IN C("dataset-size", Len(e.x) = T /\ Len(e.xn) = T /\ Len(e.X) = T /\ Len(e.Xn) = T)
            \cup C("rows-pair-state-and-successor",
                   \A k \in 1..T : VNear(e.x[k], xs(k)[row(k)])
                                   /\ VNear(e.xn[k], xs(k)[row(k) + 1]))
            \cup C("rows-pair-images-of-the-same-moments",
                   \A k \in 1..T : ImgNear(e.X[k], Xs(k)[row(k)] \o Xs(k)[row(k) + 1])
                                   /\ ImgNear(e.Xn[k], Xs(k)[row(k) + 2]))
    [] e.op = "box" ->   \* random starts: in the box, spread over it, successors right
         C("starts-within-bounds",
           \A k \in {q \in 1..Len(e.x) : (q - 1) % e.n = 0} : \A j \in 1..Len(e.lo) :
              /\ e.x[k][j] >= ToTick(e.lo[j]) - 1 /\ e.x[k][j] <= ToTick(e.up[j]) + 1)
         \cup C("starts-spread-over-the-box",
           \A j \in 1..Len(e.lo) : e.spread =>
              LET w == ToTick(e.up[j]) - ToTick(e.lo[j]) IN
              /\ \E k \in 1..Len(e.x) : 4 * (e.x[k][j] - ToTick(e.lo[j])) < w
              /\ \E k \in 1..Len(e.x) : 4 * (ToTick(e.up[j]) - e.x[k][j]) < w)
         \cup C("rollout-rows-are-consecutive",
           \A k \in {q \in 2..Len(e.x) : (q - 1) % e.n # 0} : e.x[k] = e.xn[k - 1])
         \cup C("rollouts-start-afresh",
           \A k \in {q \in 2..Len(e.x) : (q - 1) % e.n = 0} : e.x[k] # e.xn[k - 1])
         \cup C("random-rows-pair-successors",
           \A k \in 1..Len(e.x) :
             VNearT(e.xn[k], Sample([s EXCEPT !.size = 0],
                       [j \in 1..Len(e.x[k]) |-> Norm(e.x[k][j], K)], e.dt).x, 400))
    [] e.op = "rollouts" ->
         C("one-rollout-per-initial-state",
           Len(e.xs) = Len(e.starts) /\ Len(e.Xs) = Len(e.starts) /\
           \A k \in 1..Len(e.starts) :
              /\ MNear(e.xs[k], Roll(s, e.starts[k], e.dt, e.n))
              /\ LET Xs == RollX(s, e.starts[k], e.dt, e.n) IN
                 Len(e.Xs[k]) = Len(Xs) /\ \A j \in 1..Len(Xs) : ImgNear(e.Xs[k][j], Xs[j]))
    [] e.op = "noise" ->
         C("noise-proportional-to-column-mean",
           \A k \in 1..Len(e.x) : \A j \in 1..Len(e.x[k]) :
              e.zero[j] => e.out[k][j] = e.x[k][j])
         \cup C("noise-scale", e.scaleok)
         \cup C("input-not-modified", e.xafter = e.x)
    [] e.op = "loader" ->
         C("every-pair-delivered-once",
           /\ Len(e.got) = Len(e.pairs)
           /\ \A k \in 1..Len(e.pairs) :
                Cardinality({j \in 1..Len(e.got) : e.got[j] = e.pairs[k]})
                = Cardinality({j \in 1..Len(e.pairs) : e.pairs[j] = e.pairs[k]}))
         \cup C("batch-sizes", \A k \in 1..Len(e.sizes) :
                  e.sizes[k] = IF k < Len(e.sizes) THEN e.bs
                               ELSE Len(e.pairs) - e.bs * (Len(e.sizes) - 1))
         \cup C("order-shuffled", e.shuffled)
    [] e.op = "show" -> C("shows-the-given-images", e.ok)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == IF e.op = "setup" THEN Setup(e) ELSE s
S0 == 0
=============================================================================

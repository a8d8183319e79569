-------------------------------- MODULE Learn --------------------------------
EXTENDS LearnCore, TraceLib
Tol == <<1, 1024>>
AtT(r) == IF r.exact THEN 12 ELSE 80
Kept(e) == {k \in 1..Len(e.xs) : InBox(e.xs[k], e.lo, e.up)}
SumOver(S, F(_)) ==
  LET Go[n \in 0..Len(S)] == IF n = 0 THEN 0 ELSE Go[n - 1] + F(S[n]) IN Go[Len(S)]
Sorted(S, n) == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \in S)
HingeT(q) == Max2(ToTick(Trim(q)), 0)
SmpGap(e, k, r) ==
  CASE r = 1 -> PosGap(e.L, e.eps[1], e.xs[k])
    [] r = 2 -> DecGap(e.L, "lower", e.eps[2], e.xs[k], StepZ(e.T, e.xs[k]))
    [] r = 3 -> DecGap(e.L, "upper", e.eps[3], e.xs[k], StepZ(e.T, e.xs[k]))
GapOf(e, x) ==
  CASE e.kind = "positivity" -> {PosGap(e.L, e.eps, x)}
    [] OTHER -> {DecGap(e.L, e.kind, e.eps, x, y) : y \in NextT(e.T, x, <<1, 64>>)}
V(s, e) ==
  CASE e.op = "start" -> {}
    [] e.op = "batch" ->
         LET t == BatchStep(s, e.b)
             th1 == DataStep(s, e.b)
         IN C("parameters-after-the-batch", VNear(e.th, t.th))
            \cup C("programs-run-when-due-with-current-thresholds", VNear(e.thr, Thresholds(s, e.b)))
            \cup C("logged-losses", e.logs = <<>> \/
                     /\ Len(e.logs) = IF Due(s) THEN 7 ELSE 4
                     /\ \A k \in 1..Len(e.logs) :
                          LET r == IF k = 1 THEN e.b.dyn ELSE IF k <= 4 THEN e.b.smp[k - 1] ELSE e.b.prg[k - 4]
                          IN Near(e.logs[k], Dot(r, IF k <= 4 THEN s.th ELSE th1)))
    [] e.op = "epoch" ->
         C("validation-is-the-mean-over-samples",
           IF e.val = <<>> THEN e.logs = <<>>
           ELSE /\ Len(e.logs) = 4
                /\ Near(e.logs[1], WeightedMean(s, e.val, LAMBDA b : b.dyn))
                /\ \A k \in 1..3 : Near(e.logs[k + 1], WeightedMean(s, e.val, LAMBDA b : b.smp[k])))
         \cup C("validation-changes-nothing", VNear(e.th, s.th))
         \cup C("saved-at-the-configured-rate",
                e.saves = IF e.path /\ e.rate > 0
                          THEN Cardinality({j \in 0..e.k : j % e.rate = 0}) ELSE 0)
         \cup C("update-count", e.n = s.n)
    [] e.op = "done" -> C("saved-at-the-end-iff-a-path-is-given", e.saved = e.path)
                        \cup C("saved-parameters", e.saved => VNear(e.disk, s.th))
    [] e.op = "same" -> C("reloaded-learner-behaves-as-the-saved-one", e.a = e.b)
    [] e.op = "params" -> C("trained-parameters", {e.got[k] : k \in 1..Len(e.got)}
                                                  = {e.want[k] : k \in 1..Len(e.want)})
                          \cup C("each-parameter-once", Len(e.got) = Len(e.want))
    [] e.op = "mse" ->
         C("prediction-error-over-all-samples",
           Abs(e.loss - MeanT([k \in 1..Len(e.xs) |->
                 LET p == StepZ(e.T, e.xs[k])
                 IN MeanT([j \in 1..Len(p) |-> SqT(p[j], e.xns[k][j])])])) <= 8)
    [] e.op = "smp" ->
         \* three weighted losses at the samples inside the stable box
         LET S == Sorted(Kept(e), Len(e.xs)) IN
         UNION {
           LET F(k) == HingeT(SmpGap(e, k, r))
               m == IF S = <<>> THEN 0 ELSE RDivI(SumOver(S, F), Len(S))
           IN C("sample-term-" \o <<"positivity", "lower", "upper">>[r],
                Abs(e.loss[r] - CMulT(e.w[r], m)) <= 8)
           : r \in 1..3}
    [] e.op = "image" ->
         C("image-loss-is-the-sum-of-its-terms",
           Abs(e.loss - (LatentErr(e) + EqErr(e)
               + (IF e.var THEN CMulT(e.wkl, KlT([k \in 1..Len(e.xs) |-> Affine(e.enc, e.xs[k])], e.lvs)) ELSE 0)))
             <= 16)
    [] e.op = "kl" -> C("divergence-from-the-unit-normal",
                        Abs(e.loss - CMulT(e.w, KlT(e.mus, e.lvs))) <= 12)
    [] e.op = "anneal" -> C("sigmoid-schedule",
                            Abs(e.w - (ToTick(e.lo) + CMulT(RSub(e.up, e.lo), SigT(e.at)))) <= 4)
    [] e.op = "reparam" ->   \* statistics of many draws, in ticks
         C("samples-centred-at-the-mean", \A k \in 1..Len(e.mu) :
             Abs(e.mean[k] - ToTick(e.mu[k])) <= ((6 * e.dev[k]) \div 64) + 2)
         \cup C("samples-spread-by-the-deviation", \A k \in 1..Len(e.mu) :
             Abs(e.std[k] - e.dev[k]) <= (e.dev[k] \div 16) + 2)
    [] e.op = "roll" ->
         LET r == RollZ(e.T, e.x0, e.n) IN
         C("one-entry-per-step", Len(e.traj) = e.n + 1 /\ Len(e.vs) = e.n + 1)
         \cup C("starts-at-the-state", VNearT(e.traj[1], e.x0, 1))
         \cup C("consecutive-predictions", Len(e.traj) = e.n + 1 =>
                \A k \in 1..(e.n + 1) : VNearT(e.traj[k], r[k], 40))
         \cup C("candidate-along-the-rollout", Len(e.vs) = e.n + 1 =>
                \A k \in 1..(e.n + 1) : Abs(e.vs[k] - ToTick(Trim(Value(e.L, r[k])))) <= 80)
         \cup C("error-along-the-rollout", Len(e.errs) = e.n + 1 /\
                \A k \in 1..(e.n + 1) :
                  Abs(e.errs[k] - MeanT([j \in 1..Len(e.x0) |-> SqT(r[k][j], e.exp[k][j])])) <= e.errtol)
    [] e.op = "rolli" ->
         LET r == RollI(e, e.x0, e.x1, e.n) IN
         C("one-entry-per-step", Len(e.imgs) = e.n + 2 /\ Len(e.zs) = e.n + 1 /\ Len(e.vs) = e.n + 1)
         \cup C("starts-with-the-two-images",
                VNearT(e.imgs[1], e.x0, 1) /\ VNearT(e.imgs[2], e.x1, 1))
         \cup C("latent-states-are-consecutive", Len(e.zs) = e.n + 1 =>
                \A k \in 1..(e.n + 1) : VNearT(e.zs[k], r[2][k], 40))
         \cup C("images-decode-the-latent-states", Len(e.imgs) = e.n + 2 =>
                \A k \in 1..(e.n + 2) : VNearT(e.imgs[k], r[1][k], 60))
         \cup C("candidate-along-the-rollout", Len(e.vs) = e.n + 1 =>
                \A k \in 1..(e.n + 1) : Abs(e.vs[k] - ToTick(Trim(Value(e.L, r[2][k])))) <= 80)
         \cup C("error-along-the-rollout", Len(e.errs) = e.n + 2 /\
                \A k \in 3..(e.n + 2) :
                  Abs(e.errs[k] - ImageErr(e, e.exp[k], r[1][k])) <= e.errtol)
    [] e.op = "valid" ->
         C("mean-over-the-rollouts",
           Len(e.got) = Len(e.parts[1]) /\
           \A j \in 1..Len(e.got) :
             Abs(e.got[j] - MeanT([k \in 1..Len(e.parts) |-> e.parts[k][j]])) <= 4)
    [] e.op = "prog" ->   \* weighted optimum of a program (ticks)
         C("program-term-is-weight-times-optimum", Abs(e.loss - CMulT(e.w, e.opt)) <= 8)
    [] e.op = "stop" ->
         C("early-stop-beyond-the-threshold",
           e.loss = 0 \/ e.w = R0
           \/ (e.opt > e.thr + 8 => e.loss + 8 >= CMulT(e.w, e.thr)))
         \cup C("early-stop-below-the-optimum", e.loss <= Max2(CMulT(e.w, e.opt), 0) + 8)
    [] e.op = "adv" ->
         C("adversarial-states-in-the-box",
           \A k \in 1..Len(e.rets) : InBoxT(e.rets[k].x, e.lo, e.up, Tol))
         \cup C("adversarial-states-have-positive-objective",
                \A k \in 1..Len(e.rets) :
                  \E g \in GapOf(e, e.rets[k].x) : ToTick(Trim(g)) > -AtT(e.rets[k]))
         \cup C("no-state-without-violation", e.opt < -12 => e.rets = <<>>)
         \cup C("violation-found", e.opt > 12 =>
                  /\ e.rets # <<>>
                  /\ e.best => \E k \in 1..Len(e.rets) : \E g \in GapOf(e, e.rets[k].x) :
                                 Abs(ToTick(Trim(g)) - e.opt) <= AtT(e.rets[k]))
         \cup C("state-missing", e.best /\ e.npos >= 0 => Len(e.rets) = e.npos)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) ==
  IF e.op = "start" THEN NewLearner(e.th, e.lr, e.freq)
  ELSE IF e.op = "batch" THEN BatchStep(s, e.b) ELSE s
S0 == 0
=============================================================================

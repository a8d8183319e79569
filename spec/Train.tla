-------------------------------- MODULE Train --------------------------------
(* Recorded training runs against TrainCore.  Observed parameters are in    *)
(* ticks; the specification's own (exact) parameters are kept when they     *)
(* agree, and a step the specification leaves open takes the observed ones. *)
EXTENDS TrainCore, TraceLib
ThNear(o, th) == Len(o) = Len(th) /\ \A k \in 1..Len(th) : NearT(o[k], th[k], 1)
Fits(s, o) == s.cands = <<>> \/ \E k \in 1..Len(s.cands) : ThNear(o, s.cands[k])
FromTicks(o) == [k \in 1..Len(o) |-> Norm(o[k], K)]
Cur(s, o) ==
  IF s.cands # <<>> /\ Fits(s, o)
  THEN s.cands[CHOOSE k \in 1..Len(s.cands) : ThNear(o, s.cands[k])]
  ELSE FromTicks(o)
\* frozen parameters never move, even in steps the specification leaves open
Frozen(cfg, o) == \A k \in 1..Len(o) : ~cfg.mask[k] => NearT(o[k], cfg.th0[k], 1)
RTicks(cfg, th) == ToTickV(Par(cfg, th).r)
\* arguments a program or a loss was asked with
ArgsP(cfg, a) == a.lam = cfg.lam /\ a.eps = cfg.epsp
ArgsD(cfg, a) == a.lam = cfg.lam /\ a.eps = cfg.epsd /\ a.type = cfg.type
Asked(cfg, a, th) ==
  /\ IVNear(a.R, RTicks(cfg, th), 1)
  /\ IF a.what \in {"pos", "ploss"} THEN ArgsP(cfg, a) ELSE ArgsD(cfg, a)
  /\ a.what = "ploss" => a.margin = cfg.marp /\ a.red = cfg.red
  /\ a.what = "dloss" => a.margin = cfg.mard /\ a.red = cfg.red
Nexts(cfg, th, xs, ys) ==
  Len(ys) = Len(xs) /\ \A k \in 1..Len(xs) : VNearT(ys[k], StepF(cfg, th, xs[k]), 24)
MipOk(s, e, th, warm, z) ==
  C("program-built-at-current-parameters", Fits(s, z.th) /\ ThNear(z.th, th))
  \cup C("program-asked-with-the-settings", Asked(s.cfg, z, th))
  \cup C("warm-start-is-the-last-solution", z.warm = warm)
  \cup C("pool-filled-as-requested", z.fill => Len(z.ent) >= Min2(z.limit, z.made))
LossCalls(s, th, calls, want, use) ==
  IF ~use THEN C("disabled-term-evaluated", calls = <<>>)
  ELSE C("enabled-term-missing", calls # <<>>)
       \cup UNION {C("most-recent-samples-of-the-pool", calls[k].xs = want)
                   \cup C("loss-at-current-parameters", ThNear(calls[k].th, th))
                   \cup C("loss-asked-with-the-settings", Asked(s.cfg, calls[k], th))
                   \cup C("next-states-of-the-current-system",
                          calls[k].what = "dloss" => Nexts(s.cfg, th, calls[k].xs, calls[k].ys))
                   : k \in 1..Len(calls)}

IterV(s, e) ==
  IF s.phase # "run" THEN {"iteration-after-the-end"}
  ELSE LET th == Cur(s, e.pos.th)
           ps == Tail_(IterP(s, e.pos.ent), s.cfg.cap)
           ds == Tail_(IterD(s, e.der.ent), s.cfg.cap)
       IN C("one-update-of-every-trainable-parameter", Fits(s, e.pos.th))
          \cup C("frozen-parameter-moved", Frozen(s.cfg, e.pos.th))
          \cup MipOk(s, e, th, s.warmp, e.pos) \cup MipOk(s, e, th, s.warmd, e.der)
          \cup LossCalls(s, th, e.pl, ps, UseP(s.cfg, ps))
          \cup LossCalls(s, th, e.dl, ds, UseD(s.cfg, ds))
EndV(s, e) ==
  C("success-iff-certificates-within-tolerance",
    IF e.ok THEN s.phase = "success" ELSE s.phase = "failed")
  \cup C("parameters-left-as-certified-or-updated", Fits(s, e.th))
  \cup C("frozen-parameter-moved", Frozen(s.cfg, e.th))
  \cup C("reported-values", /\ NearT(e.ret[1], s.loss, 2 * Slack(s.cfg))
                            /\ NearT(e.ret[2], s.po, 2) /\ NearT(e.ret[3], s.do, 2))
  \cup C("saved-network-is-of-the-saving-iteration",
         s.cfg.save > 0 => ThNear(e.saved, s.savedth))
AdvV(s, e) ==
  IF s.phase # "mip" THEN {"certificates-solved-out-of-turn"}
  ELSE LET th == Cur(s, e.pos.th)
       IN C("descent-ends-at-the-best-parameters", Fits(s, e.pos.th))
          \cup C("frozen-parameter-moved", Frozen(s.cfg, e.pos.th))
          \cup MipOk(s, e, th, s.warmp, e.pos) \cup MipOk(s, e, th, s.warmd, e.der)
BatchOk(s, th, e) ==
  C("batch-from-the-pools", SubBag(e.p.xs, s.prem) /\ SubBag(e.d.xs, s.drem))
  \cup C("batch-size", /\ Len(e.p.xs) = Min2(BatchP(s), Len(s.prem))
                       /\ Len(e.d.xs) = Min2(BatchD(s), Len(s.drem)))
EvalV(s, e) ==
  IF s.phase \notin {"start", "batch", "epoch"} THEN {"descent-out-of-turn"}
  ELSE LET th == Cur(s, e.p.th)
       IN C("one-update-per-batch", Fits(s, e.p.th) /\ ThNear(e.d.th, th))
          \cup C("frozen-parameter-moved", Frozen(s.cfg, e.p.th))
          \cup C("loss-asked-with-the-settings", Asked(s.cfg, e.p, th) /\ Asked(s.cfg, e.d, th))
          \cup C("next-states-of-the-current-system", Nexts(s.cfg, th, e.d.xs, e.d.ys))
          \cup IF s.phase = "batch" THEN BatchOk(s, th, e)
               ELSE C("loss-on-the-whole-pool", SameBag(e.p.xs, s.pos) /\ SameBag(e.d.xs, s.der))
AdvEndV(s, e) ==
  C("success-iff-certificates-within-tolerance",
    IF e.ok THEN s.phase = "success" ELSE s.phase = "failed")
  \cup C("descent-ends-at-the-best-parameters", Fits(s, e.th))
  \cup C("pools-returned", e.pos = s.pos /\ e.der = s.der)
SmpV(s, e) ==
  IF s.phase \notin {"batch", "test"} THEN {"descent-out-of-turn"}
  ELSE LET th == Cur(s, e.p.th)
       IN C("one-update-per-batch", Fits(s, e.p.th) /\ ThNear(e.d.th, th))
          \cup C("frozen-parameter-moved", Frozen(s.cfg, e.p.th))
          \cup C("loss-asked-with-the-settings", Asked(s.cfg, e.p, th) /\ Asked(s.cfg, e.d, th))
          \cup C("next-states-of-the-current-system", Nexts(s.cfg, th, e.d.xs, e.d.ys))
          \cup C("both-terms-on-the-same-samples", SameBag(e.p.xs, e.d.xs))
          \cup IF s.phase = "batch"
               THEN C("batch-from-the-training-set",
                      SubBag(e.p.xs, s.prem) /\
                      Len(e.p.xs) = Min2(s.cfg.bs, s.ntrain - Seen(s)))
               ELSE C("test-set-is-the-rest", SameBag(e.p.xs, s.prem)
                      /\ (s.test # <<>> => SameBag(e.p.xs, s.test)))
SmpEndV(s, e) ==
  C("training-stopped-early", s.phase = "over")
  \cup C("parameters-of-the-best-test-loss", Fits(s, e.th))
  \cup C("frozen-parameter-moved", Frozen(s.cfg, e.th))

V(s, e) ==
  CASE e.op \in {"train", "adv", "smp"} -> {}
    [] e.op = "iter" -> IterV(s, e)
    [] e.op = "round" -> AdvV(s, e)
    [] e.op = "eval" -> IF s.mode = "smp" THEN SmpV(s, e) ELSE EvalV(s, e)
    [] e.op = "end" -> IF s.mode = "train" THEN EndV(s, e)
                       ELSE IF s.mode = "adv" THEN AdvEndV(s, e)
                       ELSE SmpEndV(s, e)
    [] e.op = "cluster" ->
         C("one-state-kept-per-cluster", e.kept = Clustered(e.xs, e.rad))
         \cup C("cluster-sizes", e.counts = IF e.xs = <<>> THEN <<>> ELSE Counts(e.xs, e.rad))
    [] e.op = "resolved" ->   \* the programs solved again at the final parameters
         C("certified-at-the-final-parameters",
           e.ok => /\ e.pos <= ToTick(e.tolp) + 1 /\ e.der <= ToTick(e.told) + 1
                   /\ Abs(e.pos - e.ret[2]) <= 2 /\ Abs(e.der - e.ret[3]) <= 2)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) ==
  CASE e.op = "train" -> NewRun(e.cfg, e.th, e.xs)
    [] e.op = "adv" -> NewAdv(e.cfg, e.th, e.ps, e.ds)
    [] e.op = "smp" -> NewSmp(e.cfg, e.th, e.xs)
    [] e.op = "iter" -> IF s.phase = "run" THEN Iter(s, Cur(s, e.pos.th), e.pos.ent, e.der.ent) ELSE s
    [] e.op = "round" -> IF s.phase = "mip" THEN AdvIter(s, Cur(s, e.pos.th), e.pos.ent, e.der.ent) ELSE s
    [] e.op = "eval" -> IF s.mode = "smp" THEN Sample(s, Cur(s, e.p.th), e.p.xs, e.d.xs)
                        ELSE Eval(s, Cur(s, e.p.th), e.p.xs, e.d.xs)
    [] OTHER -> s
S0 == [mode |-> "none"]
=============================================================================

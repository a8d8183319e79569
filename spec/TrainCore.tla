------------------------------ MODULE TrainCore ------------------------------
(***************************************************************************)
(* Training of a candidate function as a state machine.  The trainer only  *)
(* sees the programs and the sample losses its candidate hands it, so the  *)
(* environment chooses what each certificate program finds (a list of      *)
(* <<state, objective>>, best first), and the candidate's losses are       *)
(*   P(xs) = max(0, sum of a.x + sum(r) + 1/3)                             *)
(*   D(xs) = max(0, sum of (a.x - w.y) + sum(r) + 1/3),  y = c x + d       *)
(* over the parameters th = a (candidate), c (controller), r (transform).  *)
(* 1/3 keeps the kinks away from every reachable value.  Both programs     *)
(* have given gradients gp, gd.  Three loops: Iter (certificate descent),  *)
(* AdvIter + Eval (adversarial training), Sample (training on samples).    *)
(***************************************************************************)
EXTENDS Rat

Par(cfg, th) == [a |-> SubSeq(th, 1, cfg.n), c |-> th[cfg.n + 1],
                 r |-> SubSeq(th, cfg.n + 2, Len(th))]
StepF(cfg, th, x) == VAdd(VScale(th[cfg.n + 1], x), cfg.d)
Third == <<1, 3>>
RECURSIVE VSumTo(_, _, _)
VSumTo(xs, n, k) == IF k = 0 THEN VZero(n) ELSE VAdd(VSumTo(xs, n, k - 1), xs[k])
Total(cfg, xs) == TLCEval(VSumTo(xs, cfg.n, Len(xs)))
Base(cfg, th) == RAdd(RSum(Par(cfg, th).r), Third)
RawP(cfg, th, xs) == RAdd(Dot(Par(cfg, th).a, Total(cfg, xs)), Base(cfg, th))
RawD(cfg, th, xs) ==
  LET z == Total(cfg, xs) IN
  RAdd(RSub(Dot(Par(cfg, th).a, z),
            RAdd(RMul(th[cfg.n + 1], Dot(cfg.w, z)),
                 RMul(RInt(Len(xs)), Dot(cfg.w, cfg.d)))),
       Base(cfg, th))
Ones(k) == [q \in 1..k |-> R1]
NR(cfg) == Len(cfg.mask) - cfg.n - 1
GradP(cfg, th, xs) ==
  IF RawP(cfg, th, xs)[1] <= 0 THEN VZero(Len(th))
  ELSE Total(cfg, xs) \o <<R0>> \o Ones(NR(cfg))
GradD(cfg, th, xs) ==
  IF RawD(cfg, th, xs)[1] <= 0 THEN VZero(Len(th))
  ELSE Total(cfg, xs) \o <<RNeg(Dot(cfg.w, Total(cfg, xs)))>> \o Ones(NR(cfg))
\* a term without samples or weight is absent
UseP(cfg, xs) == cfg.wps # R0 /\ xs # <<>>
UseD(cfg, xs) == cfg.wds # R0 /\ xs # <<>>
LossP(cfg, th, xs) == IF UseP(cfg, xs) THEN RMul(cfg.wps, RPos(RawP(cfg, th, xs))) ELSE R0
LossD(cfg, th, xs) == IF UseD(cfg, xs) THEN RMul(cfg.wds, RPos(RawD(cfg, th, xs))) ELSE R0
SGrad(cfg, th, ps, ds) ==
  VAdd(IF UseP(cfg, ps) THEN VScale(cfg.wps, GradP(cfg, th, ps)) ELSE VZero(Len(th)),
       IF UseD(cfg, ds) THEN VScale(cfg.wds, GradD(cfg, th, ds)) ELSE VZero(Len(th)))
Masked(cfg, g) == TLCEval([k \in 1..Len(g) |-> IF cfg.mask[k] THEN g[k] ELSE R0])

\* ---- one update of every trainable parameter.  o: [buf, n]
NoOpt == [buf |-> <<>>, n |-> 0]
Buf(cfg, o, g) ==
  IF cfg.mom = R0 \/ o.n = 0 THEN g ELSE VAdd(VScale(cfg.mom, o.buf), g)
Known(cfg, o) == cfg.opt = "SGD" \/ o.n = 0
Update(cfg, o, th, g) ==
  IF cfg.opt = "SGD" THEN VSub(th, VScale(cfg.lr, Buf(cfg, o, g)))
  ELSE VSub(th, VScale(cfg.lr, [k \in 1..Len(g) |-> RInt(RSign(g[k]))]))
Opt(cfg, o, g) == [buf |-> IF cfg.opt = "SGD" THEN Buf(cfg, o, g) ELSE <<>>, n |-> o.n + 1]

\* ---- what a certificate program found
Found(cfg, ent, limit) ==
  LET f == SubSeq(ent, 1, Min2(limit, Len(ent))) IN
  TLCEval([k \in 1..Len(SelectSeq(f, LAMBDA z : ~cfg.only \/ z[2][1] > 0)) |->
     SelectSeq(f, LAMBDA z : ~cfg.only \/ z[2][1] > 0)[k][1]])
Tail_(q, k) == IF Len(q) > k THEN SubSeq(q, Len(q) - k + 1, Len(q)) ELSE q
Obj(ent) == ent[1][2]
Within(cfg, pe, de) == RLe(Obj(pe), cfg.tolp) /\ RLe(Obj(de), cfg.told)
Strictly(cfg, pe, de) == RLt(Obj(pe), cfg.tolp) /\ RLt(Obj(de), cfg.told)

\* ---- clusters: runs of states closer to their predecessor than the radius
Dist2(x, y) == LET d == VSub(x, y) IN Dot(d, d)
Starts(q, rad) ==
  {k \in 1..Len(q) : k = 1 \/ RLt(RMul(rad, rad), Dist2(q[k], q[k - 1]))}
RECURSIVE PickFrom(_, _, _)
PickFrom(q, S, k) == IF k > Len(q) THEN <<>>
                     ELSE (IF k \in S THEN <<q[k]>> ELSE <<>>) \o PickFrom(q, S, k + 1)
Clustered(q, rad) == PickFrom(q, Starts(q, rad), 1)
RunLen(q, rad, k) ==
  LET S == {j \in Starts(q, rad) : j > k} IN
  (IF S = {} THEN Len(q) + 1 ELSE CHOOSE j \in S : \A m \in S : j <= m) - k
Counts(q, rad) ==
  LET S == Starts(q, rad)
      Idx == PickFrom([k \in 1..Len(q) |-> k], S, 1)
  IN [m \in 1..Len(Idx) |-> RunLen(q, rad, Idx[m])]

\* ---- certificate descent
NewRun(cfg, th, xs) ==
  [mode |-> "train", cfg |-> cfg, cands |-> <<th>>, opt |-> NoOpt, it |-> 0,
   pos |-> xs, der |-> xs, phase |-> IF cfg.maxit = 0 THEN "failed" ELSE "run",
   loss |-> R0, po |-> R0, do |-> R0, warmp |-> <<>>, warmd |-> <<>>,
   saved |-> <<>>, savedth |-> <<>>]
\* pe, de: what the programs find; th: the parameters at this iteration
IterP(s, pe) == IF s.cfg.addp THEN s.pos \o Found(s.cfg, pe, s.cfg.np) ELSE s.pos
IterD(s, de) == IF s.cfg.addd THEN s.der \o Found(s.cfg, de, s.cfg.nd) ELSE s.der
IterLoss(s, th, pe, de) ==
  LET ps == Tail_(IterP(s, pe), s.cfg.cap)
      ds == Tail_(IterD(s, de), s.cfg.cap)
  IN RAdd(RAdd(LossP(s.cfg, th, ps), LossD(s.cfg, th, ds)),
          RAdd(RMul(s.cfg.wpm, Obj(pe)), RMul(s.cfg.wdm, Obj(de))))
IterGrad(s, th, pe, de) ==
  LET ps == Tail_(IterP(s, pe), s.cfg.cap)
      ds == Tail_(IterD(s, de), s.cfg.cap)
  IN Masked(s.cfg, VAdd(SGrad(s.cfg, th, ps, ds),
                        VAdd(VScale(s.cfg.wpm, s.cfg.gp), VScale(s.cfg.wdm, s.cfg.gd))))
Iter(s, th, pe, de) ==
  LET cfg == s.cfg
      done == Within(cfg, pe, de)
      g == TLCEval(IterGrad(s, th, pe, de))
  IN [s EXCEPT !.pos = IterP(s, pe), !.der = IterD(s, de),
        !.loss = IterLoss(s, th, pe, de), !.po = Obj(pe), !.do = Obj(de),
        !.it = @ + 1,
        !.phase = IF done THEN "success" ELSE IF s.it + 1 = cfg.maxit THEN "failed" ELSE "run",
        !.cands = IF done THEN <<th>>
                  ELSE IF Known(cfg, s.opt) THEN <<Update(cfg, s.opt, th, g)>> ELSE <<>>,
        !.opt = IF done THEN @ ELSE Opt(cfg, @, g),
        !.warmp = IF cfg.warmp THEN pe[1][1] ELSE @,
        !.warmd = IF cfg.warmd THEN de[1][1] ELSE @,
        !.savedth = IF cfg.save > 0 /\ s.it % cfg.save = 0 THEN th ELSE @]

\* ---- adversarial training
NewAdv(cfg, th, ps, ds) ==
  [mode |-> "adv", cfg |-> cfg, cands |-> <<th>>, opt |-> NoOpt, it |-> 0,
   pos |-> ps, der |-> ds, phase |-> IF cfg.maxit = 0 THEN "failed" ELSE "mip",
   warmp |-> <<>>, warmd |-> <<>>, prem |-> <<>>, drem |-> <<>>,
   j |-> 0, ep |-> 0, best |-> <<>>]
RECURSIVE Rep(_, _)
Rep(q, k) == IF k = 0 THEN <<>> ELSE q \o Rep(q, k - 1)
Merge(cfg, q) == IF cfg.rad = <<>> \/ q = <<>> THEN q ELSE Clustered(q, cfg.rad[1])
AdvIter(s, th, pe, de) ==
  LET cfg == s.cfg
      fp == Merge(cfg, Found(cfg, pe, cfg.np))
      fd == Merge(cfg, Found(cfg, de, cfg.nd))
  IN [s EXCEPT !.pos = Tail_(s.pos \o fp, cfg.capp),
        !.der = Tail_(s.der \o fd \o Rep(fd, cfg.perturb), cfg.capd),
        !.it = @ + 1, !.cands = <<th>>,
        !.phase = IF Within(cfg, pe, de) THEN "success" ELSE "start",
        !.warmp = IF cfg.warmp THEN pe[1][1] ELSE @,
        !.warmd = IF cfg.warmd THEN de[1][1] ELSE @,
        !.opt = NoOpt]
CeilDiv(a, b) == (a + b - 1) \div b
BatchP(s) == CeilDiv(Len(s.pos), s.cfg.nbatch)
BatchD(s) == CeilDiv(Len(s.der), s.cfg.nbatch)
Batches(s) == Min2(CeilDiv(Len(s.pos), BatchP(s)), CeilDiv(Len(s.der), BatchD(s)))
SLoss(cfg, th, ps, ds) == RAdd(LossP(cfg, th, ps), LossD(cfg, th, ds))
MinLoss(b) == RMinSeq([k \in 1..Len(b) |-> b[k][1]])
\* parameters whose loss is within tol ticks of the best one seen
BestOf(b, tol) ==
  LET m == ToTick(MinLoss(b))
      q == SelectSeq(b, LAMBDA z : ToTick(z[1]) <= m + tol)
  IN [k \in 1..Len(q) |-> q[k][2]]
Slack(cfg) == IF cfg.opt = "SGD" THEN 1 ELSE 64
NextMip(s) == IF s.it = s.cfg.maxit THEN "failed" ELSE "mip"
\* number of occurrences, and removal, of samples
Cnt(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
SubBag(p, q) == \A k \in 1..Len(p) : Cnt(p, p[k]) <= Cnt(q, p[k])
SameBag(p, q) == Len(p) = Len(q) /\ SubBag(p, q)
RECURSIVE Minus(_, _)
RemoveOne(q, x) ==
  IF \E k \in 1..Len(q) : q[k] = x
  THEN LET j == CHOOSE k \in 1..Len(q) : q[k] = x IN SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
  ELSE q
Minus(q, p) == IF p = <<>> THEN q ELSE Minus(RemoveOne(q, p[1]), SubSeq(p, 2, Len(p)))
\* one evaluation of both sample losses, at th, on ps and ds
Eval(s, th, ps, ds) ==
  LET cfg == s.cfg IN
  CASE s.phase = "start" ->
         [s EXCEPT !.phase = "batch", !.j = 1, !.ep = 1, !.cands = <<th>>,
                   !.prem = s.pos, !.drem = s.der,
                   !.best = <<<<SLoss(cfg, th, ps, ds), th>>>>]
    [] s.phase = "batch" ->
         LET g == Masked(cfg, SGrad(cfg, th, ps, ds)) IN
         [s EXCEPT !.prem = Minus(@, ps), !.drem = Minus(@, ds),
                   !.cands = IF Known(cfg, s.opt) THEN <<Update(cfg, s.opt, th, g)>> ELSE <<>>,
                   !.opt = Opt(cfg, @, g),
                   !.j = @ + 1,
                   !.phase = IF s.j = Batches(s) THEN "epoch" ELSE "batch"]
    [] s.phase = "epoch" ->
         LET l == SLoss(cfg, th, ps, ds)
             b == Append(s.best, <<l, th>>) IN
         IF l = R0 THEN [s EXCEPT !.phase = NextMip(s), !.cands = <<th>>]
         ELSE IF s.ep = cfg.epochs
         THEN [s EXCEPT !.phase = NextMip(s), !.best = b, !.cands = BestOf(b, Slack(cfg))]
         ELSE [s EXCEPT !.phase = "batch", !.best = b, !.ep = @ + 1, !.j = 1,
                        !.cands = <<th>>, !.prem = s.pos, !.drem = s.der]
    [] OTHER -> s

\* ---- training on given samples
NewSmp(cfg, th, xs) ==
  [mode |-> "smp", cfg |-> cfg, cands |-> <<th>>, opt |-> NoOpt,
   pos |-> xs, phase |-> "batch", prem |-> xs, ep |-> 1,
   ntrain |-> (Len(xs) * 4) \div 5, test |-> <<>>, best |-> <<>>]
Seen(s) == Len(s.pos) - Len(s.prem)
Sample(s, th, ps, ds) ==
  LET cfg == s.cfg IN
  CASE s.phase = "batch" ->
         LET g == Masked(cfg, SGrad(cfg, th, ps, ds)) IN
         [s EXCEPT !.prem = Minus(@, ps),
                   !.cands = IF Known(cfg, s.opt) THEN <<Update(cfg, s.opt, th, g)>> ELSE <<>>,
                   !.opt = Opt(cfg, @, g),
                   !.phase = IF Seen(s) + Len(ps) >= s.ntrain THEN "test" ELSE "batch"]
    [] s.phase = "test" ->
         LET b == Append(s.best, <<SLoss(cfg, th, ps, ds), th>>) IN
         [s EXCEPT !.best = b, !.test = ps, !.ep = @ + 1, !.prem = s.pos,
                   !.phase = IF s.ep = cfg.epochs THEN "over" ELSE "batch",
                   !.cands = IF s.ep = cfg.epochs THEN BestOf(b, Slack(cfg)) ELSE <<th>>]
    [] OTHER -> s
=============================================================================

--------------------------------- MODULE Fit ---------------------------------
(* Recorded gradient projections and fitting runs against FitCore.          *)
EXTENDS FitCore, TraceLib
Seqs(q) == {q[k] : k \in 1..Len(q)}
IVN(o, th) == Len(o) = Len(th) /\ \A k \in 1..Len(th) : NearT(o[k], th[k], 2)
Expected(s, t) == s.cands = <<>> \/ IVN(t, s.cands[1])
\* an update moves by at most a few learning rates (and may be too small to
\* show, or zero while every gradient so far was zero)
Step(s, t) ==
  /\ t # s.t \/ s.upd
  /\ \A k \in 1..Len(t) : Abs(t[k] - s.t[k]) <= 4 * ToTick(s.cfg.lr) + 4
Moves(s, t) == s.t = <<>> \/ s.cands # <<>> \/ Step(s, t)
ValueV(s, e) ==
  C("evaluation-after-the-end", s.phase \in {"run", "any"})
  \cup C("first-parameters-and-first-update", Expected(s, e.t))
  \cup C("one-update-per-epoch", Moves(s, e.t))
EndV(s, e) ==
  LET l == LossT(s.cfg, s.t, s.cfg.data)
      d == Slack(s.cfg, s.t, s.cfg.data)
  IN C("success-iff-within-tolerance",
       \/ s.phase = "any"
       \/ e.ok /\ s.phase = "success"
       \/ ~e.ok /\ s.phase = "failed")
     \cup C("stopped-before-the-limit", ~e.ok => s.n = s.cfg.epochs)
     \cup C("reported-loss", Abs(e.loss - l) <= d)
     \cup C("success-leaves-the-evaluated-parameters", e.ok => e.t = s.t)
     \cup C("one-update-per-epoch", (~e.ok) => IF s.cands # <<>> THEN IVN(e.t, s.cands[1]) ELSE Step(s, e.t))
\* positions of the samples xs in rem
Pos(s, xs) == {k \in 1..Len(s.rem) : s.rem[k][1] \in Seqs(xs)}
Drawn(s, xs) == Seqs(xs) \subseteq {s.rem[k][1] : k \in 1..Len(s.rem)}
Held(s) == SelectSeq(s.cfg.data, LAMBDA z : z \notin Seqs(s.train))
IsLook(s, e) == s.train # <<>> /\ s.seen = 0 /\ Seqs(e.xs) = {z[1] : z \in Seqs(Held(s))}
CallV(s, e) ==
  LET want == LET r == s.cfg.ntrain - s.seen IN IF s.cfg.bs < r THEN s.cfg.bs ELSE r IN
  C("parameters-of-the-run",
    IF s.cands # <<>> THEN IVN(e.t, s.cands[1])
    ELSE IF s.moved THEN Step(s, e.t) ELSE e.t = s.t)
  \cup IF IsLook(s, e) THEN {}
       ELSE C("epoch-beyond-the-limit", s.ep < s.cfg.epochs)
            \cup C("every-training-sample-once-per-epoch",
                   Drawn(s, e.xs) /\ Cardinality(Seqs(e.xs)) = Len(e.xs))
            \cup C("batch-size", Len(e.xs) = want)
FendV(s, e) ==
  C("all-epochs-run", s.ep = s.cfg.epochs /\ s.seen = 0)
  \cup C("parameters-of-the-last-update",
         IF s.cands # <<>> THEN IVN(e.t, s.cands[1])
         ELSE IF s.moved THEN Step(s, e.t) ELSE e.t = s.t)
\* the gradient of the squared error at parameters t, in ticks, unscaled
GradT(cfg, t, data) ==
  [c \in 1..Len(t) |-> ISum([k \in 1..Len(data) |->
      CMulT(Feat(cfg, data[k][1])[c], ErrT(cfg, t, data[k]))])]
Largest(g) == CHOOSE m \in 1..Len(g) : \A k \in 1..Len(g) : Abs(g[k]) <= Abs(g[m])
\* same direction, whatever the scale of the loss
Along(g, want) ==
  LET m == Largest(want)
      u == 40 + Abs(want[m]) \div 512
  IN /\ Len(g) = Len(want)
     /\ Abs(want[m]) > 8 * u =>
          /\ (g[m] > 0) = (want[m] > 0)
          /\ \A k \in 1..Len(g) :
               Abs(TMul(g[k], want[m]) - TMul(g[m], want[k]))
                 <= 3 + TMul(Abs(g[m]) + Abs(g[k]) + 2, u)
UpdateV(s, e) ==
  LET d == IF s.kind = "value" THEN s.cfg.data
           ELSE SelectSeq(s.cfg.data, LAMBDA z : z[1] \in Seqs(e.xs))
  IN C("update-uses-the-gradient-of-its-own-batch", Along(e.g, GradT(s.cfg, s.t, d)))
V(s, e) ==
  CASE e.op = "project" ->
         LET g == Project(e.mode, e.n1, e.n2) IN
         C("projected-gradient", Len(e.g) = Len(g) /\ \A k \in 1..Len(g) : NearT(e.g[k], g[k], 3))
         \cup C("gradients-returned", VNear(e.r1, e.n1) /\ VNear(e.r2, e.n2))
         \cup C("projection-needed-iff-conflict", e.need <=> Conflict(e.n1, e.n2))
         \cup C("graph-kept-when-asked", e.keep => e.again)
    [] e.op \in {"value", "batches"} -> {}
    [] e.op = "eval" -> ValueV(s, e)
    [] e.op = "vend" -> EndV(s, e)
    [] e.op = "call" -> CallV(s, e)
    [] e.op = "update" -> UpdateV(s, e)
    [] e.op = "fend" -> FendV(s, e)
    [] e.op = "same" -> C("fitting-a-system-is-fitting-its-samples", e.a = e.b)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) ==
  CASE e.op = "value" -> NewValue(e.cfg, e.th)
    [] e.op = "batches" -> NewBatches(e.cfg, e.th)
    [] e.op = "eval" -> Evaluate(s, e.t)
    [] e.op = "call" -> IF IsLook(s, e) THEN Look(s, e.t) ELSE Batch(s, e.t, Pos(s, e.xs))
    [] e.op = "update" -> [s EXCEPT !.upd = TRUE]
    [] OTHER -> s
S0 == [kind |-> "none"]
=============================================================================

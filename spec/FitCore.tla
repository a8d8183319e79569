------------------------------ MODULE FitCore ------------------------------
(***************************************************************************)
(* Supervised fitting and gradient projection.                             *)
(* Fitting is seen through a linear model  a.x + b + z.s  with parameters  *)
(* th = a, b, z.  Loops: fitting a value (all samples at each step, stops  *)
(* at a tolerance), and fitting in batches (each epoch draws every         *)
(* training sample exactly once).                                          *)
(***************************************************************************)
EXTENDS Rat
\* ---- two gradients, one descent direction
Perp(n1, n2) == VSub(n1, VScale(RDiv(Dot(n1, n2), Dot(n2, n2)), n2))
Conflict(n1, n2) == Dot(n1, n2)[1] < 0
Project(mode, n1, n2) ==
  IF ~Conflict(n1, n2) THEN VAdd(n1, n2)
  ELSE CASE mode = "LOSS1" -> Perp(n1, n2)
         [] mode = "LOSS2" -> Perp(n2, n1)
         [] mode = "BOTH" -> VAdd(Perp(n1, n2), Perp(n2, n1))
         [] mode = "EMPHASIZE_LOSS1" -> VAdd(n1, Perp(n2, n1))
         [] mode = "EMPHASIZE_LOSS2" -> VAdd(Perp(n1, n2), n2)

\* ---- the fitted model.  cfg: [n, s, off (value fitting: subtract the
\* model at xs and add lam |R (x - xs)|_1), xs, lam, R, data <<x, v>>, lr,
\* tol, epochs, bs, ntrain]
Off(cfg, x) == IF cfg.off THEN RMul(cfg.lam, L1(MatVec(cfg.R, VSub(x, cfg.xs)))) ELSE R0
Feat(cfg, x) ==        \* gradient of the model's output
  IF cfg.off THEN VSub(x, cfg.xs) \o <<R0>> ELSE x \o <<R1>> \o cfg.s
Pred(cfg, th, x) == RAdd(Dot(Feat(cfg, x), th), Off(cfg, x))
RECURSIVE GSum(_, _, _, _)
GSum(cfg, th, data, k) ==
  IF k = 0 THEN VZero(Len(th))
  ELSE VAdd(GSum(cfg, th, data, k - 1),
            VScale(RSub(Pred(cfg, th, data[k][1]), data[k][2]), Feat(cfg, data[k][1])))
Grad(cfg, th, data) == GSum(cfg, th, data, Len(data))
First(cfg, th, data) ==     \* the first step of Adam
  LET g == Grad(cfg, th, data) IN
  VSub(th, VScale(cfg.lr, [k \in 1..Len(g) |-> RInt(RSign(g[k]))]))
\* loss of parameters in ticks, and its uncertainty
ErrT(cfg, t, z) == CDotT(Feat(cfg, z[1]), t) + ToTick(Off(cfg, z[1])) - ToTick(z[2])
LossT(cfg, t, data) ==
  LET q == [k \in 1..Len(data) |-> LET u == ErrT(cfg, t, data[k]) IN TMul(u, u)]
  IN RDivI(ISum(q), Len(data))
Slack(cfg, t, data) ==
  LET m == CHOOSE u \in {Abs(ErrT(cfg, t, data[k])) : k \in 1..Len(data)} :
             \A k \in 1..Len(data) : Abs(ErrT(cfg, t, data[k])) <= u
  IN 4 + (m \div K + 1) * 12

\* ---- fitting a value: s: [cfg, t (parameters last evaluated), cands, n, phase]
NewValue(cfg, th) ==
  [kind |-> "value", cfg |-> cfg, cands |-> <<th>>, t |-> <<>>, upd |-> FALSE, n |-> 0, phase |-> "run"]
\* upd: the optimiser was run since the last evaluation.
\* below: "yes", "no" or "maybe" (within rounding of the tolerance)
Below(s, t) ==
  LET l == LossT(s.cfg, t, s.cfg.data)
      q == ToTick(s.cfg.tol)
      d == Slack(s.cfg, t, s.cfg.data)
  IN IF l + d < q THEN "yes" ELSE IF l > q + d THEN "no" ELSE "maybe"
Evaluate(s, t) ==
  [s EXCEPT !.t = t, !.upd = FALSE, !.n = @ + 1,
     !.phase = IF Below(s, t) = "yes" THEN "success"
               ELSE IF s.n + 1 = s.cfg.epochs
               THEN (IF Below(s, t) = "no" THEN "failed" ELSE "any")
               ELSE IF Below(s, t) = "maybe" THEN "any" ELSE "run",
     !.cands = IF s.n = 0 THEN <<First(s.cfg, s.cands[1], s.cfg.data)>> ELSE <<>>]

\* ---- fitting in batches: rem: samples not drawn in this epoch
NewBatches(cfg, th) ==
  [kind |-> "batches", cfg |-> cfg, cands |-> <<th>>, t |-> <<>>, upd |-> FALSE, n |-> 0, ep |-> 0,
   seen |-> 0, rem |-> cfg.data, train |-> <<>>, moved |-> FALSE]
Batch(s, t, b) ==      \* b: positions in rem, drawn for an update
  LET all == s.seen + Cardinality(b) >= s.cfg.ntrain
      drawn == {s.rem[k] : k \in b}
      rest == SelectSeq(s.rem, LAMBDA z : z \notin drawn)
      train == IF s.train # <<>> THEN s.train
               ELSE IF all THEN SelectSeq(s.cfg.data, LAMBDA z : z \notin {rest[k] : k \in 1..Len(rest)})
               ELSE <<>>
  IN [s EXCEPT !.t = t, !.upd = FALSE, !.n = @ + 1, !.moved = TRUE, !.train = train,
        !.seen = IF all THEN 0 ELSE @ + Cardinality(b),
        !.ep = IF all THEN @ + 1 ELSE @,
        !.rem = IF all THEN train ELSE rest,
        !.cands = IF s.n = 0
                  THEN <<First(s.cfg, s.cands[1], SelectSeq(s.rem, LAMBDA z : z \in drawn))>>
                  ELSE <<>>]
Look(s, t) == [s EXCEPT !.t = t, !.upd = FALSE, !.moved = FALSE, !.cands = IF s.n = 1 THEN @ ELSE <<>>]
=============================================================================

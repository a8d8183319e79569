------------------------------ MODULE LearnCore ------------------------------
(***************************************************************************)
(* Learning dynamics with a Lyapunov regulariser: predictions, images      *)
(* encoded into and decoded from a latent state, rollouts, and the loop    *)
(* that alternates steps on data with steps on certificate programs.       *)
(***************************************************************************)
EXTENDS LyapCore
\* ---- the learning loop: th parameters, n updates so far, log of saves
\* forms: gradients of losses linear in the parameters, by role
NewLearner(th, lr, freq) == [th |-> th, lr |-> lr, freq |-> freq, n |-> 0, progs |-> 0]
Grad(fs) == LET Go[k \in 0..Len(fs)] == IF k = 0 THEN VZero(Len(fs[1])) ELSE VAdd(Go[k - 1], fs[k])
            IN Go[Len(fs)]
DataStep(s, b) == VSub(s.th, VScale(s.lr, Grad(<<b.dyn>> \o b.smp)))
Due(s) == s.freq > 0 /\ s.n % s.freq = 0
BatchStep(s, b) ==
  LET t1 == DataStep(s, b) IN
  [s EXCEPT !.th = IF Due(s) THEN VSub(t1, VScale(s.lr, Grad(b.prg))) ELSE t1,
            !.n = s.n + 1,
            !.progs = IF Due(s) THEN s.progs + 1 ELSE s.progs]
\* thresholds handed to the programs: sample losses after the data step
Thresholds(s, b) ==
  IF Due(s) THEN [k \in 1..Len(b.smp) |-> Dot(b.smp[k], DataStep(s, b))] ELSE <<>>
WeightedMean(s, bs, role(_)) ==
  RDiv(RSum([k \in 1..Len(bs) |-> RMul(RInt(bs[k].rows), Dot(role(bs[k]), s.th))]),
       RSum([k \in 1..Len(bs) |-> RInt(bs[k].rows)]))

\* ---- images: flattened, pixels after channels; enc and dec affine
Affine(m, v) == VAdd(MatVec(m.W, v), m.b)
Level(m, v) == [k \in 1..Len(m.b) |-> IF Affine(m, v)[k][1] >= 0 THEN Norm(3, 4) ELSE Norm(1, 4)]
Decode(e, z) == IF e.bce THEN Level(e.dec, z) ELSE Affine(e.dec, z)
\* natural logarithm of 1/4, 1/2, 3/4 and 1, in ticks
LnT(p) == CASE p = Norm(1, 4) -> -5678 [] p = Norm(1, 2) -> -2839
            [] p = Norm(3, 4) -> -1178 [] p = R1 -> 0
\* logistic function at -3..3, in ticks
SigT(k) == CASE k = 0 -> 2048 [] k = 1 -> 2994 [] k = 2 -> 3608 [] k = 3 -> 3902
             [] k = -1 -> 1102 [] k = -2 -> 488 [] k = -3 -> 194
SqT(a, b) == LET d == ToTick(Trim(a)) - ToTick(Trim(b)) IN TMul(d, d)
CrossT(p, t) == -(CMulT(t, LnT(p)) + CMulT(RSub(R1, t), LnT(RSub(R1, p))))
MeanT(q) == RDivI(ISum(q), Len(q))
\* error of the image p predicted for the image t
ImageErr(e, t, p) ==
  MeanT([k \in 1..Len(t) |-> IF e.bce THEN CrossT(p[k], t[k]) ELSE SqT(p[k], t[k])])
StepZ(T, z) == VTrim(Step(T.sys, z, <<>>))
\* half the channels of the current image complete a next image of half depth
FullNext(x, xn) == IF Len(xn) < Len(x) THEN SubSeq(x, Len(xn) + 1, Len(x)) \o xn ELSE xn
HalfOf(v) == SubSeq(v, Len(v) \div 2 + 1, Len(v))
LatentErr(e) ==
  MeanT([k \in 1..Len(e.xs) |-> ImageErr(e, e.xs[k], Decode(e, VTrim(Affine(e.enc, e.xs[k]))))])
  + MeanT([k \in 1..Len(e.xs) |->
      ImageErr(e, FullNext(e.xs[k], e.xns[k]),
               Decode(e, StepZ(e.T, VTrim(Affine(e.enc, e.xs[k])))))])
EqErr(e) == IF e.eqimg = <<>> THEN 0 ELSE CMulT(e.weq, ImageErr(e, e.eqimg, Decode(e, e.L.xs)))
\* divergence from the unit normal; lv is 2 ln of the deviation: an index
\* into 0 -> 0, 1 -> ln 2, 2 -> -ln 2, 3 -> -80
LvT(j) == CASE j = 0 -> 0 [] j = 1 -> 2839 [] j = 2 -> -2839 [] j = 3 -> -80 * K
ExpT(j) == CASE j = 0 -> K [] j = 1 -> 2 * K [] j = 2 -> K \div 2 [] j = 3 -> 0
KlRow(mu, lv) ==
  ISum([k \in 1..Len(mu) |-> LET m == ToTick(Trim(mu[k])) IN TMul(m, m) + ExpT(lv[k]) - LvT(lv[k]) - K]) \div 2
KlT(mus, lvs) == MeanT([k \in 1..Len(mus) |-> KlRow(mus[k], lvs[k])])
\* ---- rollouts
RECURSIVE RollZ(_, _, _)
RollZ(T, z, n) == IF n = 0 THEN <<z>> ELSE LET r == RollZ(T, z, n - 1) IN Append(r, StepZ(T, r[Len(r)]))
\* through images: <<images, latent states>>
RECURSIVE RollI(_, _, _, _)
RollI(e, x0, x1, n) ==
  IF n = 0 THEN <<<<x0, x1>>, <<VTrim(Affine(e.enc, x0 \o x1))>>>>
  ELSE LET r == RollI(e, x0, x1, n - 1)
           q == Len(r[1])
           z == StepZ(e.T, IF e.via THEN VTrim(Affine(e.enc, r[1][q - 1] \o r[1][q])) ELSE r[2][q - 1])
       IN <<Append(r[1], VTrim(HalfOf(Decode(e, z)))), Append(r[2], z)>>
=============================================================================

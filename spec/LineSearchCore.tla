--------------------------- MODULE LineSearchCore ---------------------------
(***************************************************************************)
(* Line-search optimisers (gradient descent with momentum, and Adam) as a *)
(* state machine.  The optimiser only sees the gradients and the values   *)
(* its loss closure returns, so the environment chooses both freely:      *)
(*   Begin(g, l0)  - gradients and the loss at the current parameters;    *)
(*                   moments are updated once and the direction is fixed  *)
(*   Trial(l)      - the closure is evaluated at base + alpha*lr*dir and  *)
(*                   returns l; accept, or shrink alpha                   *)
(*   End           - the step returns (phase accepted or exhausted)       *)
(* Parameters are a sequence of tensors (vectors of rationals); a tensor  *)
(* may have no gradient and is then left alone.                           *)
(***************************************************************************)
EXTENDS Rat

(* Rounding to 1/4096 and fixed-point square root (Adam only). *)
RoundT(a) == Norm(ToTick(a), K)
RECURSIVE SqrtB(_, _, _)
SqrtB(n, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF m * m <= n THEN SqrtB(n, m, hi) ELSE SqrtB(n, lo, m)
\* sqrt in units of 1/4096 for values < 100: sqrt(v * 2^24) with 2^24 v split
Sqrt(a) ==
  IF a[1] = 0 THEN R0
  ELSE LET q == a[1] \div a[2]
           r == a[1] - q * a[2]
           \* a * 2^20, accurate to one part in 2^20
           n20 == q * 1048576 + (((r * 1024) \div a[2]) * 1024
                  + ((((r * 1024) % a[2]) * 1024) \div a[2]))
       IN Norm(SqrtB(n20, 0, 46000), 1024)

None == <<>>
HasGrad(g) == g # None

(* cfg.exact: gradient descent in exact arithmetic; otherwise every        *)
(* intermediate vector is rounded to 1/4096.                              *)
RT(v) == TLCEval([k \in 1..Len(v) |-> RoundT(v[k])])
Keep(cfg, v) == IF cfg.exact THEN v ELSE RT(v)
GradWD(cfg, g, x) ==
  IF cfg.wd[1] = 0 THEN g ELSE Keep(cfg, VAdd(g, VScale(cfg.wd, x)))

(* ---- gradient descent: one tensor's momentum buffer and direction ---- *)
GDBuf(cfg, d, buf) ==
  IF cfg.momentum[1] = 0 THEN buf
  ELSE IF buf = None THEN d
  ELSE Keep(cfg, VAdd(VScale(cfg.momentum, buf),
                      VScale(RSub(R1, cfg.dampening), d)))
GDDir(cfg, d, nbuf) ==
  IF cfg.momentum[1] = 0 THEN VNeg(d)
  ELSE IF cfg.nesterov THEN Keep(cfg, VNeg(VAdd(d, VScale(cfg.momentum, nbuf))))
  ELSE VNeg(nbuf)

(* ---- Adam: one tensor ---- *)
Sq(v) == TLCEval([k \in 1..Len(v) |-> RoundT(RMul(v[k], v[k]))])
AdamM(cfg, d, m) == RT(VAdd(VScale(cfg.b1, m), VScale(RSub(R1, cfg.b1), d)))
AdamV(cfg, d, v) == RT(VAdd(VScale(cfg.b2, v), VScale(RSub(R1, cfg.b2), Sq(d))))
VMaxE(a, b) == [k \in 1..Len(a) |-> RMax(a[k], b[k])]
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN R1 ELSE RMul(a, RPow(a, n - 1))
AdamDir(cfg, m, v, n) ==
  LET bc2 == RSub(R1, RPow(cfg.b2, n))
  IN TLCEval([k \in 1..Len(m) |->
       LET den == RAdd(Sqrt(RoundT(RDiv(v[k], bc2))), cfg.eps)
       IN RoundT(RNeg(RDiv(m[k], den)))])
AdamStep(cfg, n) == RDiv(cfg.lr, RSub(R1, RPow(cfg.b1, n)))

(* ---- machine ---- *)
\* tc: the settings of each tensor's parameter group; cfg: the last group,
\* whose settings drive the line search.
NewStG(cfg, tc, x) ==
  [cfg |-> cfg, tc |-> tc, x |-> x, phase |-> "idle",
   buf |-> [k \in 1..Len(x) |-> None], m |-> [k \in 1..Len(x) |-> None],
   v |-> [k \in 1..Len(x) |-> None], vm |-> [k \in 1..Len(x) |-> None],
   n |-> [k \in 1..Len(x) |-> 0],
   base |-> x, dir |-> x, t |-> [k \in 1..Len(x) |-> R0],
   alpha |-> R1, prev |-> R0, need |-> R0, l0 |-> R0, last |-> R0,
   trials |-> 0]
NewSt(cfg, x) == NewStG(cfg, [k \in 1..Len(x) |-> cfg], x)

Zero(x) == VZero(Len(x))
Or0(b, x) == IF b = None THEN Zero(x) ELSE b

RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN R0 ELSE RAdd(SumOver(f, n - 1), f[n])

Begin(s, g, l0) ==
  LET cfg == s.cfg
      tc == s.tc
      P == 1..Len(s.x)
      d == TLCEval([k \in P |-> IF HasGrad(g[k]) THEN GradWD(tc[k], g[k], s.x[k])
                     ELSE None])
      gd == cfg.kind = "gd"
      nbuf == TLCEval([k \in P |-> IF HasGrad(g[k]) /\ gd
                THEN GDBuf(tc[k], d[k], s.buf[k]) ELSE s.buf[k]])
      nn == [k \in P |-> IF HasGrad(g[k]) THEN s.n[k] + 1 ELSE s.n[k]]
      nm == TLCEval([k \in P |-> IF HasGrad(g[k]) /\ ~gd
                THEN AdamM(tc[k], d[k], Or0(s.m[k], s.x[k])) ELSE s.m[k]])
      nv == TLCEval([k \in P |-> IF HasGrad(g[k]) /\ ~gd
                THEN AdamV(tc[k], d[k], Or0(s.v[k], s.x[k])) ELSE s.v[k]])
      nvm == TLCEval([k \in P |-> IF HasGrad(g[k]) /\ ~gd /\ tc[k].amsgrad
                THEN VMaxE(Or0(s.vm[k], s.x[k]), nv[k]) ELSE s.vm[k]])
      dir == TLCEval([k \in P |->
               IF ~HasGrad(g[k]) THEN Zero(s.x[k])
               ELSE IF gd THEN GDDir(tc[k], d[k], nbuf[k])
               ELSE AdamDir(tc[k], nm[k],
                            IF tc[k].amsgrad THEN nvm[k] ELSE nv[k], nn[k])])
      t == TLCEval([k \in P |-> IF gd THEN cfg.lr
               ELSE IF HasGrad(g[k]) THEN RoundT(AdamStep(tc[k], nn[k])) ELSE R0])
      \* required change of the loss for a full step
      need == IF cfg.exact THEN RMul(cfg.c1, RMul(cfg.lr, SumOver([k \in P |->
                IF HasGrad(g[k]) THEN Dot(d[k], dir[k]) ELSE R0], Len(s.x))))
              ELSE RoundT(RMul(cfg.c1, SumOver([k \in P |->
                IF HasGrad(g[k]) THEN RoundT(RMul(t[k], RoundT(Dot(d[k], dir[k]))))
                ELSE R0], Len(s.x))))
  IN [s EXCEPT !.phase = "search", !.buf = nbuf, !.m = nm, !.v = nv,
               !.vm = nvm, !.n = nn, !.base = s.x, !.dir = dir, !.t = t,
               !.alpha = R1, !.prev = R0, !.need = need,
               !.l0 = l0, !.trials = 0]

Point(s, alpha) ==
  TLCEval([k \in 1..Len(s.base) |->
     VAdd(s.base[k], Keep(s.cfg, VScale(alpha,
                           Keep(s.cfg, VScale(s.t[k], s.dir[k])))))])
TrialX(s) == Point(s, s.alpha)

Accepts(s, l) ==
  IF s.cfg.kind = "gd"
  THEN /\ RLe(l, RAdd(s.l0, s.need))
       /\ RLe(l, RSub(s.l0, s.cfg.minimp))
  ELSE /\ s.cfg.usec1 => RLt(l, RAdd(s.l0, RoundT(RMul(s.alpha, s.need))))
       /\ RLt(l, RSub(s.l0, s.cfg.minimp))

Trial(s, l) ==
  LET x == TrialX(s)
      na == RMul(s.alpha, s.cfg.red)
      acc == Accepts(s, l)
  IN [s EXCEPT !.x = x, !.last = l, !.trials = @ + 1, !.prev = s.alpha,
        !.phase = IF acc THEN "accepted"
                  ELSE IF RLt(s.cfg.minstep, na) THEN "search" ELSE "exhausted",
        !.alpha = IF acc THEN @ ELSE na]

\* Adam's irrational steps are tracked to 1/4096 (resynchronised at End).
End(s) == [s EXCEPT !.phase = "idle",
             !.x = IF s.cfg.exact THEN @
                   ELSE TLCEval([k \in 1..Len(@) |-> RT(@[k])])]
=============================================================================

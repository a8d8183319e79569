--------------------------- MODULE MC_LineSearch ----------------------------
(***************************************************************************)
(* Exhaustive model of the line-search machine: every configuration in a  *)
(* small grid, every sequence of gradients and of closure results.  The   *)
(* invariants are the listed guarantees.  At the end of every behaviour   *)
(* the history is printed, to be replayed into the real optimisers.       *)
(***************************************************************************)
EXTENDS LineSearchCore, Json
CONSTANTS Steps, Kind
VARIABLES s, hist, steps

Q(n, d) == Norm(n, d)
GDCfgs == {[kind |-> "gd", exact |-> TRUE, lr |-> lr, momentum |-> m.m, dampening |-> m.d,
            nesterov |-> m.n, wd |-> wd, c1 |-> c1, minstep |-> Q(1, 8),
            red |-> Q(1, 2), minimp |-> mi, usec1 |-> TRUE, amsgrad |-> FALSE,
            b1 |-> R0, b2 |-> R0, eps |-> R0] :
   lr \in {Q(1, 2)},
   m \in {[m |-> R0, d |-> R0, n |-> FALSE],
          [m |-> Q(1, 2), d |-> Q(1, 4), n |-> FALSE],
          [m |-> Q(1, 2), d |-> R0, n |-> TRUE]},
   wd \in {R0, Q(1, 2)}, c1 \in {Q(1, 4)}, mi \in {R0, Q(1, 1)}}
AdamCfgs == {[kind |-> "adam", exact |-> FALSE, lr |-> Q(1, 2), momentum |-> R0, dampening |-> R0,
            nesterov |-> FALSE, wd |-> wd, c1 |-> Q(1, 4), minstep |-> Q(1, 8),
            red |-> Q(1, 2), minimp |-> mi, usec1 |-> uc, amsgrad |-> a,
            b1 |-> Q(1, 2), b2 |-> Q(3, 4), eps |-> Q(1, 4)] :
   wd \in {R0, Q(1, 2)}, mi \in {R0, Q(1, 4)}, uc \in {TRUE, FALSE},
   a \in {TRUE, FALSE}}
Cfgs == IF Kind = "gd" THEN GDCfgs ELSE AdamCfgs
Grads == {<<<<Q(2, 1), Q(-1, 1)>>, <<Q(1, 1)>>>>,
          <<<<Q(-1, 1), Q(0, 1)>>, None>>}
X0 == <<<<Q(1, 1), Q(-2, 1)>>, <<Q(1, 2)>>>>
\* loss results relative to l0 = 10, around each acceptance threshold
L0 == Q(10, 1)

Init == /\ \E c \in Cfgs : /\ s = NewSt(c, X0)
                           /\ hist = <<[op |-> "new", cfg |-> c, x |-> X0]>>
        /\ steps = 0
DoBegin == /\ s.phase = "idle" /\ steps < Steps
           /\ \E g \in Grads :
                /\ s' = Begin(s, g, L0)
                /\ hist' = Append(hist, [op |-> "begin", g |-> g, l0 |-> L0])
           /\ steps' = steps
Thresholds(z) == {RAdd(z.l0, z.need), RSub(z.l0, z.cfg.minimp)}
Losses(z) == {RoundT(RSub(th, d)) :
                th \in {RMin(RAdd(z.l0, IF Kind = "gd" THEN z.need
                                        ELSE IF z.cfg.usec1
                                             THEN RMul(z.alpha, z.need) ELSE R0),
                             RSub(z.l0, z.cfg.minimp))},
                d \in IF Kind = "gd" THEN {R0, Q(-1, 1024), Q(1, 1)}
                      ELSE {Q(-1, 16), Q(1, 16)}}
DoTrial == /\ s.phase = "search"
           /\ \E l \in Losses(s) :
                /\ s' = Trial(s, l)
                /\ hist' = Append(hist, [op |-> "trial", x |-> TrialX(s), loss |-> l])
           /\ steps' = steps
DoEnd == /\ s.phase \in {"accepted", "exhausted"}
         /\ s' = End(s) /\ steps' = steps + 1
         /\ hist' = Append(hist, [op |-> "end", ret |-> s.last, x |-> s.x,
                                  phase |-> s.phase])
Next == DoBegin \/ DoTrial \/ DoEnd
Spec == Init /\ [][Next]_<<s, hist, steps>>

\* ---- guarantees
AcceptedDecreases ==
  s.phase = "accepted" =>
     /\ RLe(s.last, RSub(s.l0, s.cfg.minimp))
     /\ (s.cfg.kind = "gd" \/ s.cfg.usec1) =>
          RLe(s.last, RAdd(s.l0, RMul(s.alpha, s.need)))
          \/ RLt(R0, s.need)      \* not a descent direction (momentum)
AlphaInSequence == \E k \in 0..4 : s.alpha = RPow(s.cfg.red, k)
FewTrials == s.trials <= 3
OnRay == s.phase \in {"accepted", "exhausted"} => s.x = Point(s, s.prev)
NoGradNoMove ==
  s.phase # "idle" =>
    \A k \in 1..Len(s.x) :
       (hist[Len(hist) - s.trials].op = "begin"
        /\ hist[Len(hist) - s.trials].g[k] = None) => s.x[k] = s.base[k]
GDDescent ==
  (s.cfg.kind = "gd" /\ s.cfg.momentum = R0) => RLe(s.need, R0)
Emit == (steps = Steps /\ s.phase = "idle") => PrintT("BEH " \o ToJson(hist))
=============================================================================

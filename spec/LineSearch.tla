----------------------------- MODULE LineSearch -----------------------------
(* Trace specification: recorded optimiser runs against LineSearchCore.    *)
EXTENDS LineSearchCore, TraceLib

PNear(o, x, t) == /\ Len(o) = Len(x)
                  /\ \A k \in 1..Len(x) : VNearT(o[k], x[k], t)
Tol(s) == IF s.cfg.exact THEN 2 ELSE IF s.cfg.kind = "gd" THEN 12 ELSE 40

\* Which settings a constructor accepts
Valid(e) ==
  /\ e.lr[1] >= 0
  /\ e.kind = "gd" =>
       /\ e.momentum[1] >= 0 /\ e.wd[1] >= 0
       /\ e.nesterov => (e.momentum[1] > 0 /\ e.damp[1] = 0)
  /\ e.kind = "adam" =>
       /\ e.eps[1] >= 0
       /\ \A b \in {e.b1, e.b2} : b[1] >= 0 /\ RLt(b, R1)
Defaults(kind) ==
  IF kind = "gd"
  THEN [momentum |-> "0", dampening |-> "0", weight_decay |-> "0",
        nesterov |-> "False", min_step_size_decrease |-> "0.0001",
        loss_minimal_decrement |-> "0.0001", step_size_reduction |-> "0.2",
        min_improvement |-> "0.0"]
  ELSE [lr |-> "0.001", betas |-> "(0.9, 0.999)", eps |-> "1e-08",
        weight_decay |-> "0", amsgrad |-> "False",
        loss_minimal_decrement |-> "0.0001",
        min_step_size_decrease |-> "0.0001", step_size_reduction |-> "0.2",
        min_improvement |-> "0.0"]

V(s, e) ==
  CASE e.op = "new" -> {}
    [] e.op = "begin" -> C("step-begins-only-when-idle", s.phase = "idle")
    [] e.op = "trial" ->
         IF s.phase # "search" THEN {"loss-evaluated-after-acceptance"}
         ELSE C("trial-point-on-the-search-ray", PNear(e.x, TrialX(s), Tol(s)))
    [] e.op = "end" ->
         C("step-size-meets-test-or-is-last", s.phase \in {"accepted", "exhausted"})
         \cup C("returned-loss-is-loss-at-parameters", e.ret = s.last)
         \cup C("parameters-left-at-last-trial", PNear(e.x, s.x, Tol(s)))
    [] e.op = "construct" -> C("settings-accepted-iff-valid", e.ok <=> Valid(e))
    [] e.op = "defaults" ->
         C("documented-default-settings",
           \A k \in DOMAIN Defaults(e.kind) : e.d[k] = Defaults(e.kind)[k])
    [] e.op = "raised" -> {"optimiser-raised"}
    [] OTHER -> {"unknown-event"}

N(s, e) ==
  CASE e.op = "new" -> NewStG(e.cfg, e.tc, e.x)
    [] e.op = "begin" -> Begin(s, e.g, e.l0)
    [] e.op = "trial" -> IF s.phase = "search" THEN Trial(s, e.loss) ELSE s
    [] e.op = "end" -> IF s.cfg.exact THEN End(s)
                       ELSE [End(s) EXCEPT !.x = e.xr]
    [] OTHER -> s

S0 == [phase |-> "none"]
=============================================================================

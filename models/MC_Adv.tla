-------------------------------- MODULE MC_Adv -------------------------------
(***************************************************************************)
(* Adversarial training, exhaustively on a small instance: every outcome   *)
(* of the certificates and every way of drawing the batches.               *)
(***************************************************************************)
EXTENDS TrainCore, TLC
CONSTANTS MaxIt, Epochs, Caps
VARIABLES s, seen, app
Q(a, b) == Norm(a, b)
Cfg(nb, cap) ==
  [n |-> 1, d |-> <<R0>>, w |-> <<R1>>, mask |-> <<TRUE, TRUE, TRUE>>,
   gp |-> <<R0, R0, R0>>, gd |-> <<R0, R0, R0>>, wps |-> R1, wds |-> Q(1, 2),
   wpm |-> R0, wdm |-> R0, tolp |-> Q(1, 16), told |-> Q(1, 8), np |-> 2, nd |-> 1,
   only |-> TRUE, opt |-> "SGD", lr |-> Q(1, 4), mom |-> R0, maxit |-> MaxIt,
   warmp |-> FALSE, warmd |-> FALSE, nbatch |-> nb, epochs |-> Epochs,
   capp |-> cap, capd |-> 2, rad |-> <<>>, perturb |-> 0]
Ent(bad) == IF bad THEN {<< <<<<RInt(2)>>, R1>>, <<<<RInt(-1)>>, Q(1, 2)>> >>}
            ELSE {<< <<<<RInt(1)>>, R0>> >>}
Th0 == <<R1, Q(1, 2), R0>>
Init == /\ \E nb \in {1, 2}, cap \in Caps :
             s = NewAdv(Cfg(nb, cap), Th0, <<<<RInt(-3)>>>>, <<<<R1>>, <<RInt(-2)>>>>)
        /\ seen = {} /\ app = s.pos
Solve == /\ s.phase = "mip"
         /\ \E pb, db \in BOOLEAN : \E pe \in Ent(pb), de \in Ent(db), q \in 1..Len(s.cands) :
              /\ s' = AdvIter(s, s.cands[q], pe, de)
              /\ app' = app \o Found(s.cfg, pe, s.cfg.np)
         /\ seen' = {}
\* a batch: any sub-collection of the right size
Sub(q, k) == {[j \in 1..k |-> q[f[j]]] :
                f \in {g \in [1..k -> 1..Len(q)] : \A j, m \in 1..k : j < m => g[j] < g[m]}}
Loss(th) == SLoss(s.cfg, th, s.pos, s.der)
Batch == /\ s.phase = "batch"
         /\ \E ps \in Sub(s.prem, Min2(BatchP(s), Len(s.prem))),
               ds \in Sub(s.drem, Min2(BatchD(s), Len(s.drem))) :
              s' = Eval(s, s.cands[1], ps, ds)
         /\ UNCHANGED <<seen, app>>
Whole == /\ s.phase \in {"start", "epoch"}
         /\ s' = Eval(s, s.cands[1], s.pos, s.der)
         /\ seen' = seen \cup {Loss(s.cands[1])}
         /\ UNCHANGED app
Next == Solve \/ Batch \/ Whole
Spec == Init /\ [][Next]_<<s, seen, app>>
\* ---- guarantees
PoolIsRecent == /\ Len(s.pos) <= Max2(s.cfg.capp, 1) /\ Len(s.der) <= 2
                /\ s.pos = Tail_(app, s.cfg.capp)
BestIsKept ==
  (s.phase \in {"mip", "failed"} /\ seen # {}) =>
     \A q \in 1..Len(s.cands) : ToTick(Loss(s.cands[q])) <= ToTick(CHOOSE l \in seen : \A m \in seen : RLe(l, m)) + 1
NeverWorse ==
  [][s.phase = "epoch" /\ s'.phase \in {"mip", "failed"} =>
       \A q \in 1..Len(s'.cands) : ToTick(Loss(s'.cands[q])) <= ToTick(s.best[1][1]) + 1]_<<s, seen, app>>
FailureUsesAllIterations == s.phase = "failed" => s.it = MaxIt
EachEpochDrawsOnce == s.phase = "epoch" => Len(s.prem) = 0 \/ Len(s.drem) = 0
=============================================================================

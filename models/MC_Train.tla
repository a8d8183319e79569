------------------------------- MODULE MC_Train ------------------------------
(***************************************************************************)
(* Every sequence of certificate outcomes in a short training run, with    *)
(* and without growing pools, for every trainable set.  The outcomes are   *)
(* printed and replayed into the real trainer.                             *)
(***************************************************************************)
EXTENDS TrainCore, TLC, Json
CONSTANT MaxIt
VARIABLES s, hist, ths
Q(a, b) == Norm(a, b)
Cfg(add, mask, cap, mom) ==
  [n |-> 1, d |-> <<R1>>, w |-> <<R1>>, mask |-> mask, gp |-> <<R1, R0, R1>>,
   gd |-> <<RInt(-1), R1, R0>>, wps |-> R1, wds |-> Q(1, 2), wpm |-> Q(1, 2),
   wdm |-> R1, tolp |-> Q(1, 16), told |-> Q(1, 8), np |-> 2, nd |-> 1,
   addp |-> add, addd |-> add, only |-> TRUE, cap |-> cap, opt |-> "SGD",
   lr |-> Q(1, 4), mom |-> mom, maxit |-> MaxIt, warmp |-> TRUE, warmd |-> FALSE,
   save |-> 2]
Ent(bad) == IF bad THEN {<< <<<<RInt(2)>>, R1>>, <<<<RInt(-1)>>, Q(1, 2)>> >>,
                         << <<<<RInt(1)>>, Q(1, 4)>> >>}
            ELSE {<< <<<<RInt(1)>>, R0>> >>}
Th0 == <<R1, Q(1, 2), R0>>
Init == /\ \E add \in BOOLEAN, m \in {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, FALSE>>},
              cap \in {1, 3}, mom \in {R0, Q(1, 2)} :
             s = NewRun(Cfg(add, m, cap, mom), Th0, <<<<R1>>>>)
        /\ hist = <<>> /\ ths = <<>>
Go(pb, db) ==
  /\ s.phase = "run"
  /\ \E pe \in Ent(pb), de \in Ent(db) :
       s' = Iter(s, s.cands[1], pe, de)
  /\ hist' = Append(hist, [p |-> pb, d |-> db])
  /\ ths' = Append(ths, s.cands[1])
Next == \E pb, db \in BOOLEAN : Go(pb, db)
Spec == Init /\ [][Next]_<<s, hist, ths>>
\* ---- guarantees
SuccessIsCertified ==
  s.phase = "success" => /\ RLe(s.po, s.cfg.tolp) /\ RLe(s.do, s.cfg.told)
                         /\ s.cands = <<ths[Len(ths)]>>
FailureUsesAllIterations == s.phase = "failed" => s.it = s.cfg.maxit
NeverCertifiedBefore ==
  \A k \in 1..Len(hist) - 1 : hist[k].p \/ hist[k].d
OneUpdateEach == s.opt.n = IF s.phase = "success" THEN s.it - 1 ELSE s.it
FrozenStay == \A q \in 1..3 : ~s.cfg.mask[q] => s.cands[1][q] = Th0[q]
PoolsOnlyGrow == [][/\ SubSeq(s'.pos, 1, Len(s.pos)) = s.pos
                    /\ SubSeq(s'.der, 1, Len(s.der)) = s.der]_<<s, hist, ths>>
OnlyViolationsAdded ==
  \A k \in 2..Len(s.pos) : s.pos[k] \in {<<RInt(2)>>, <<RInt(-1)>>, <<RInt(1)>>}
Ends == (s.phase # "run" /\ s.cfg.addp /\ s.cfg.cap = 1 /\ s.cfg.mom = R0 /\ s.cfg.mask[2])
          => PrintT("BEH " \o ToJson(hist))
=============================================================================

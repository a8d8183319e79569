-------------------------------- MODULE MC_Fit --------------------------------
(***************************************************************************)
(* Projection laws over all small gradients, and the batch machine over    *)
(* every way of drawing the batches.                                       *)
(***************************************************************************)
EXTENDS FitCore, TLC
CONSTANTS Amp, N, NTrain, Bs, Epochs
VARIABLES s, g1, g2, counts
Vecs == {<<RInt(a), RInt(b)>> : a, b \in -Amp..Amp}
Data == [k \in 1..N |-> <<<<RInt(k)>>, RInt(k % 2)>>]
Cfg == [n |-> 1, s |-> <<>>, off |-> FALSE, xs |-> <<R0>>, lam |-> R0, R |-> <<>>,
        data |-> Data, lr |-> Norm(1, 4), tol |-> R0, epochs |-> Epochs, bs |-> Bs, ntrain |-> NTrain]
Th0 == <<R1, R0>>
Init == /\ s = NewBatches(Cfg, Th0) /\ g1 \in Vecs /\ g2 \in Vecs
        /\ counts = [k \in 1..N |-> 0]
Subs(k) == {b \in SUBSET (1..Len(s.rem)) : Cardinality(b) = k}
Draw == /\ s.ep < Epochs /\ g1 = <<R1, R1>> /\ g2 = <<R1, R1>>
        /\ LET r == NTrain - s.seen IN
           \E b \in Subs(IF Bs < r THEN Bs ELSE r) :
             /\ s' = Batch(s, <<s.n>>, b)
             /\ counts' = [k \in 1..N |-> counts[k] +
                             (IF \E j \in b : s.rem[j] = Data[k] THEN 1 ELSE 0)]
        /\ UNCHANGED <<g1, g2>>
Spec == Init /\ [][Draw]_<<s, g1, g2, counts>>
\* ---- guarantees
Modes == {"LOSS1", "LOSS2", "BOTH", "EMPHASIZE_LOSS1", "EMPHASIZE_LOSS2"}
G(m) == Project(m, g1, g2)
ProjectionLaws ==
  /\ Conflict(g1, g2) =>
       /\ Dot(G("LOSS1"), g2) = R0 /\ Dot(G("LOSS2"), g1) = R0
       /\ Dot(G("LOSS1"), g1)[1] >= 0 /\ Dot(G("LOSS2"), g2)[1] >= 0
       \* descending along both never increases either loss
       /\ Dot(G("BOTH"), g1)[1] >= 0 /\ Dot(G("BOTH"), g2)[1] >= 0
       /\ Dot(G("EMPHASIZE_LOSS1"), g1)[1] >= 0 /\ Dot(G("EMPHASIZE_LOSS2"), g2)[1] >= 0
  /\ ~Conflict(g1, g2) => \A m \in Modes : G(m) = VAdd(g1, g2)
\* in every finished epoch each training sample was drawn once, others never
EpochsPartition ==
  s.seen = 0 => \A k \in 1..N :
    counts[k] = IF \E j \in 1..Len(s.train) : s.train[j] = Data[k] THEN s.ep ELSE 0
TrainingSetFixed == [][s.train # <<>> => s'.train = s.train]_s
UpdatesCounted == s.ep = Epochs => s.n = Epochs * ((NTrain + Bs - 1) \div Bs)
=============================================================================

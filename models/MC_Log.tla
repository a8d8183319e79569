------------------------------- MODULE MC_Log --------------------------------
(* Every history of at most Steps calls on at most three logs.             *)
EXTENDS LogCore, Json
CONSTANT Steps
VARIABLES logs, hist, nw
Vec(d, k) == [j \in 1..d |-> Norm(k + j, 2)]
Init == /\ \E d \in {1, 2}, f \in {TRUE, FALSE} :
             /\ logs = <<NewLog(d, "p", f, 1)>>
             /\ hist = <<[op |-> "new", dim |-> d, prefix |-> "p", fvo |-> f, w |-> 1]>>
        /\ nw = 1
Rec == /\ \E id \in 1..Len(logs) : \E k \in {"train", "val"} :
            LET v == Vec(logs[id].dim, Len(hist)) IN
            /\ logs' = [logs EXCEPT ![id] = IF k = "train" THEN AddTrain(@, v) ELSE AddVal(@, v)]
            /\ hist' = Append(hist, [op |-> k, id |-> id, v |-> v])
       /\ UNCHANGED nw
Cp == /\ Len(logs) < 3
      /\ \E id \in 1..Len(logs), p \in {"<none>", "q"}, f \in {"none", "true", "false"},
            keep \in {TRUE, FALSE} :
            LET w == IF keep THEN logs[id].writer ELSE nw + 1 IN
            /\ logs' = Append(logs, CopyLog(logs[id], p, f, keep, w))
            /\ nw' = Max2(nw, w)
            /\ hist' = Append(hist, [op |-> "copy", id |-> id, prefix |-> p,
                                     fvo |-> f, keep |-> keep, w |-> w])
Next == Len(hist) <= Steps /\ (Rec \/ Cp)
Spec == Init /\ [][Next]_<<logs, hist, nw>>
\* every recorded vector is in exactly the logs that recorded or copied it
Count(id, k) == Cardinality({j \in 1..Len(hist) : hist[j].op = k /\ hist[j].id = id})
RootCounts == /\ Len(logs[1].train) = Count(1, "train")
              /\ Len(logs[1].val) = Count(1, "val")
AppendOnly == [][\A id \in 1..Len(logs) :
    /\ SubSeq(logs'[id].train, 1, Len(logs[id].train)) = logs[id].train
    /\ SubSeq(logs'[id].val, 1, Len(logs[id].val)) = logs[id].val]_<<logs, hist, nw>>
Emit == Len(hist) = Steps + 1 => PrintT("BEH " \o ToJson(hist))
=============================================================================

--------------------------------- MODULE Log ---------------------------------
(* st.logs: log id -> log.  Every event carries the scalars written.       *)
EXTENDS LogCore, TraceLib
After(s, e) ==
  CASE e.op = "reset" -> [logs |-> <<>>]
    [] e.op = "new" -> [s EXCEPT !.logs = Append(@, NewLog(e.dim, e.prefix, e.fvo, e.w))]
    [] e.op = "train" -> [s EXCEPT !.logs[e.id] = AddTrain(@, e.v)]
    [] e.op = "val" -> [s EXCEPT !.logs[e.id] = AddVal(@, e.v)]
    [] e.op = "copy" -> [s EXCEPT !.logs = Append(@,
                           CopyLog(s.logs[e.id], e.prefix, e.fvo, e.keep, e.w))]
    [] OTHER -> s
Wrote(e) == {<<w.tag, w.name, w.value, w.step>> : w \in {e.wrote[k] : k \in 1..Len(e.wrote)}}
ObsOk(o, l) ==
  /\ Len(o.train) = Len(l.train) /\ \A k \in 1..Len(l.train) : o.train[k] = l.train[k]
  /\ Len(o.val) = Len(l.val) /\ \A k \in 1..Len(l.val) : o.val[k] = l.val[k]
V(s, e) ==
  LET a == After(s, e)
      exp == CASE e.op = "train" -> Scalars(a.logs[e.id], "Train", e.v)
               [] e.op = "val" -> Scalars(a.logs[e.id], "Validation", e.v)
               [] OTHER -> {}
  IN IF e.op = "raised" THEN {"raised"}
     ELSE C("scalars-written-exactly", Wrote(e) = exp /\ Len(e.wrote) = Cardinality(exp))
       \cup C("scalars-to-own-writer",
              e.op \in {"train", "val"} =>
                \A k \in 1..Len(e.wrote) : e.wrote[k].w = a.logs[e.id].writer)
       \cup C("losses-kept-in-order-and-apart",
              Len(e.obs) = Len(a.logs) /\
              \A k \in 1..Len(a.logs) : ObsOk(e.obs[k], a.logs[k]))
       \cup C("settings-of-each-log",
              \A k \in 1..Len(a.logs) :
                /\ e.obs[k].dim = a.logs[k].dim
                /\ e.obs[k].prefix = a.logs[k].prefix
                /\ e.obs[k].fvo = a.logs[k].fvo
                /\ e.obs[k].writer = a.logs[k].writer)
N(s, e) == After(s, e)
S0 == [logs |-> <<>>]
=============================================================================

------------------------------- MODULE LogCore -------------------------------
(***************************************************************************)
(* Training logs.  A log keeps every training and every validation loss   *)
(* vector in order and writes the scalars of each recorded vector, under  *)
(* its prefix, at the step equal to the number of training vectors so far.*)
(* A copy shares nothing with the original but, on request, the writer.   *)
(***************************************************************************)
EXTENDS Rat
NewLog(dim, prefix, fvo, w) ==
  [dim |-> dim, prefix |-> prefix, fvo |-> fvo, writer |-> w,
   train |-> <<>>, val |-> <<>>]
AddTrain(l, v) == [l EXCEPT !.train = Append(@, v)]
AddVal(l, v) == [l EXCEPT !.val = Append(@, v)]
\* writer 0: ask for a fresh one
CopyLog(l, prefix, fvo, keep, w) ==
  [l EXCEPT !.prefix = IF prefix = "<none>" THEN @ ELSE prefix,
            !.fvo = IF fvo = "none" THEN @ ELSE (fvo = "true"),
            !.writer = IF keep THEN @ ELSE w]
Scalars(l, kind, v) ==
  IF l.fvo THEN {<<kind, l.prefix, v[1], Len(l.train)>>}
  ELSE {<<kind \o "_" \o ToString(k - 1), l.prefix, v[k], Len(l.train)>> :
          k \in 1..l.dim}
=============================================================================

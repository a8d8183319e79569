------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Trace validation driver.  A trace is the sequence of API calls made on *)
(* the implementation, with arguments and observed results.  Verdict is   *)
(* total: the set of clauses of the specification the observed step       *)
(* breaks (empty = the step is one the specification allows); NextSt is   *)
(* the specification's own transition.  The whole trace is always         *)
(* consumed, so that one bad step does not hide the next.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS St0, Verdict(_, _), NextSt(_, _)
VARIABLES i, st, bad

Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == i = 1 /\ st = St0 /\ bad = <<>>
TStep ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i]
         v == Verdict(st, e)
     IN /\ bad' = IF v = {} THEN bad ELSE Append(bad, <<i, v>>)
        /\ st' = NextSt(st, e)
        /\ i' = i + 1
TDone ==
  /\ i = Len(Trace) + 1
  /\ JsonSerialize(IOEnv.VERDICT, [n |-> Len(Trace), bad |-> bad])
  /\ i' = i + 1
  /\ UNCHANGED <<st, bad>>
TNext == TStep \/ TDone
TSpec == TInit /\ [][TNext]_<<i, st, bad>>
TAccepted == TLCGet("stats").diameter - 1 = Len(Trace) + 1
=============================================================================

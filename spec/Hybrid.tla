------------------------------- MODULE Hybrid -------------------------------
(* Recorded calls on hybrid linear systems (autonomous or with inputs).     *)
EXTENDS HybridCore, TraceLib
Col(vs, j) == [k \in 1..Len(vs) |-> vs[k][j]]
SetOf(s) == {s[k] : k \in 1..Len(s)}
StepOk(sys, z, o) ==
  IF Modes(sys, z) = {} THEN o.refused
  ELSE ~o.refused /\ o.next \in Images(sys, z)
V(s, e) ==
  CASE e.op = "mode" ->
         C("mode-contains-the-state",
           IF Modes(e.sys, e.z) = {} THEN e.mode = 0
           ELSE e.mode \in Modes(e.sys, e.z))
         \cup C("first-containing-mode",
                Modes(e.sys, e.z) # {} => e.mode = FirstMode(e.sys, e.z))
    [] e.op = "step" ->
         C("state-without-mode-refused",
           Modes(e.sys, e.z) = {} => e.obs.refused)
         \cup C("step-is-the-map-of-a-containing-mode", StepOk(e.sys, e.z, e.obs))
         \cup C("mode-of-the-step",
                (e.hasmode /\ ~e.obs.refused) =>
                   /\ e.obs.mode \in Modes(e.sys, e.z)
                   /\ Image(e.sys[e.obs.mode], e.z) = e.obs.next)
    [] e.op = "batch" ->
         IF \E k \in 1..Len(e.zs) : Modes(e.sys, e.zs[k]) = {}
         THEN C("batch-with-a-state-without-mode-refused", e.refused)
         ELSE C("batch-equals-one-by-one",
                /\ ~e.refused
                /\ Len(e.next) = Len(e.zs)
                /\ \A k \in 1..Len(e.zs) : e.next[k] = e.single[k])
              \cup C("batched-modes-equal-one-by-one", e.hasmode => e.modes = e.smodes)
    [] e.op = "inmode" -> C("step-in-the-given-mode", e.next = Image(e.sys[e.k], e.z))
    [] e.op = "possible" ->
         C("possible-results", SetOf(e.dxs) = Images(e.sys, e.z))
    [] e.op = "encode" ->   \* binaries fixed to e.g (0/1 per mode), or free
         LET inb == InBox(e.z, e.lo, e.up)
             on == {k \in 1..Len(e.g) : e.g[k] = 1}
             ok == IF e.fixed
                   THEN {k \in on : Cardinality(on) = 1 /\ InMode(e.sys[k], e.z)}
                   ELSE Modes(e.sys, e.z)
             im == {Image(e.sys[k], e.z) : k \in ok}
         IN C("feasible-only-inside-a-selected-mode", e.feas => ok # {})
            \cup C("contained-point-admitted", (ok # {} /\ inb) => e.feas)
            \cup (IF ~e.feas \/ ok = {} THEN {} ELSE
                  C("successor-forced",
                    /\ Len(e.out) = Len(e.sys[1].c)
                    /\ \A j \in 1..Len(e.out) :
                         LET vs == {v[j] : v \in im} IN
                         NearT(e.out[j][1], SetMin(vs), 6) /\ NearT(e.out[j][2], SetMax(vs), 6)))
    [] e.op = "extent" ->   \* certified extremes per mode; the extent is their extreme
         C("certificate-holds:extent",
           \A k \in 1..Len(e.qs) : Proves(e.qs[k], e.cs[k], e.certs[k]) /\ e.certs[k].kind = "opt")
         \cup C(e.side,
                NearT(e.obs, SetMax({RAdd(Dot(e.cs[k], e.certs[k].x), e.ks[k]) : k \in 1..Len(e.qs)}), 3))
    [] e.op = "unbounded" -> C("unbounded-mode-refused", e.refused)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

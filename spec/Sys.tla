-------------------------------- MODULE Sys --------------------------------
(* Recorded calls on network dynamics and closed loops.                    *)
EXTENDS SysCore, TraceLib
Nx(sys) == Len(sys.xs)
Within(v, lo, up) == \A k \in 1..Len(v) :
  LET q == ToTick(v[k]) IN lo[k] <= q + 4 /\ q <= up[k] + 4
\* observed ranges [lo, up] of variables whose value is one of the set im
Forced(sys, rs, im) ==
  \A j \in 1..Len(rs) :
    LET vs == {v[j] : v \in im}
    IN NearT(rs[j][1], SetMin(vs), 6 + SysTol(sys)) /\ NearT(rs[j][2], SetMax(vs), 6 + SysTol(sys))
Spans(sys, rs, im) ==
  \A v \in im : \A j \in 1..Len(rs) :
    LET q == ToTick(v[j]) IN rs[j][1] <= q + 6 + SysTol(sys) /\ q <= rs[j][2] + 6 + SysTol(sys)
U(e) == IF e.loop THEN Law(e.ctl, e.x) ELSE e.u
V(s, e) ==
  CASE e.op = "step" ->
         LET u == U(e) IN
         C("control-law", e.loop => IF SysTol(e.sys) = 0 THEN e.uobs = u ELSE Same(e.sys, e.uobs, u))
         \cup C("step-is-the-defining-formula", OneOf(e.sys, e.next, Succ(e.sys, e.x, u)))
         \cup C("possible-next-states",
                IF SysTol(e.sys) = 0 THEN {e.dxs[k] : k \in 1..Len(e.dxs)} = Succ(e.sys, e.x, u)
                ELSE Len(e.dxs) = 1 /\ OneOf(e.sys, e.dxs[1], Succ(e.sys, e.x, u)))
    [] e.op = "batch" ->
         C("batched-step-is-row-by-row",
           /\ Len(e.next) = Len(e.xs)
           /\ \A k \in 1..Len(e.xs) :
                OneOf(e.sys, e.next[k],
                      Succ(e.sys, e.xs[k],
                           IF e.loop THEN Law(e.ctl, e.xs[k]) ELSE e.us[k])))
         \cup C("batched-control-is-row-by-row",
                e.loop => \A k \in 1..Len(e.xs) : Same(e.sys, e.us[k], Law(e.ctl, e.xs[k])))
    [] e.op = "rest" ->
         C("equilibrium-is-kept", Pins(e.sys) => Same(e.sys, e.next, Rest(e.sys)))
    [] e.op = "restlaw" ->
         C("equilibrium-state-gets-the-equilibrium-input",
           e.uobs = [k \in 1..Len(e.ctl.us) |-> Clamp1(e.ctl, k, e.ctl.us[k])])
    [] e.op = "encode" ->
         LET u == U(e)
             im == Succ(e.sys, e.x, u)
             in == InBox(e.x, e.lo, e.up) /\ (e.loop \/ InBox(e.u, e.ulo, e.uup))
         IN C("state-of-the-box-excluded", (in /\ im # {}) => e.feas)
            \cup C("hybrid-state-without-mode-admitted", (e.feas /\ e.exact) => im # {})
            \cup (IF ~e.feas \/ ~in \/ im = {} THEN {} ELSE
                  IF e.exact
                  THEN C("encoded-successor-is-the-step",
                         Len(e.out) = Nx(e.sys) /\ Forced(e.sys, e.out, im))
                       \cup C("encoded-control-is-the-law", Forced(e.sys, e.uout, {u}))
                  ELSE C("relaxation-contains-the-step",
                         Spans(e.sys, e.out, im) /\ Spans(e.sys, e.uout, {u})))
    [] e.op = "bounds" ->   \* at states xs (with inputs us when open loop)
         UNION {
           LET x == e.xs[k]
               u == IF e.loop THEN Law(e.ctl, x) ELSE e.us[k]
               im == Succ(e.sys, x, u)
           IN C("next-state-bounds-sound", e.hasnext => \A v \in im : Within(v, e.nextlo, e.nextup))
              \cup C("control-bounds-sound", e.hasu => Within(u, e.ulo, e.uup))
              \cup (IF ~e.hasnet THEN {} ELSE
                    LET ps == Pres(e.sys.net, NetIn(e.sys, x, u))
                        pre == Flat(SubSeq(ps, 1, Len(ps) - 1))
                    IN C("network-input-bounds-sound", Within(NetIn(e.sys, x, u), e.inlo, e.inup))
                       \cup C("neuron-bounds-sound",
                              Within(pre, e.prelo, e.preup) /\
                              Within(ActV(e.sys.net.c, pre), e.postlo, e.postup))
                       \cup C("network-output-bounds-sound",
                              e.hasnetout => Within(ps[Len(ps)], e.outlo, e.outup)))
              \cup (IF ~e.hasctl THEN {} ELSE
                    LET pre == PreFlat(e.ctl.net, x)
                    IN C("controller-neuron-bounds-sound",
                         Within(pre, e.cprelo, e.cpreup) /\
                         Within(ActV(e.ctl.net.c, pre), e.cpostlo, e.cpostup)))
           : k \in 1..Len(e.xs)}
    [] e.op = "extreme" ->   \* the bound program's extreme of coordinate k and where
         LET u == IF e.loop THEN Law(e.ctl, e.x) ELSE e.u
             q == e.bound
             v == {ToTick(w[e.k]) : w \in (IF e.what = "u" THEN {u} ELSE Succ(e.sys, e.x, u))}
         IN C("extreme-attained", e.exact => \E w \in v : Abs(w - q) <= 12 + e.tol)
            \cup C("extreme-inside-the-box", InBox(e.x, e.lo, e.up))
    [] e.op = "joins" -> C("joins-a-closed-loop:" \o e.why, e.what = "")
    [] e.op = "same" -> C("networks-left-unchanged", e.before = e.after)
    [] e.op = "params" -> C("controller-parameters-exposed", e.obs = e.want)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

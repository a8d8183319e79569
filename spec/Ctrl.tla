-------------------------------- MODULE Ctrl --------------------------------
(* Recorded calls on control-affine systems.                               *)
EXTENDS CtrlCore, TraceLib
Within(v, lo, up) == Len(v) = Len(lo) /\ Len(v) = Len(up) /\
  \A k \in 1..Len(v) : LET q == ToTick(v[k]) IN lo[k] <= q + 4 /\ q <= up[k] + 4
Forced(rs, v) == Len(rs) = Len(v) /\
  \A j \in 1..Len(rs) : NearT(rs[j][1], v[j], 6) /\ NearT(rs[j][2], v[j], 6)
Spans(rs, v) == Len(rs) = Len(v) /\
  \A j \in 1..Len(rs) : LET q == ToTick(v[j]) IN rs[j][1] <= q + 6 /\ q <= rs[j][2] + 6
V(s, e) ==
  CASE e.op = "dyn" ->
         LET f == Drift(e.sys, e.x)
             g == InputMatrix(e.sys, e.x)
         IN C("drift", e.f = f)
            \cup C("input-matrix", e.g = g)
            \cup C("dynamics-is-drift-plus-matrix-times-clamped-input",
                   e.dx = VAdd(f, MatVec(g, Clamp(e.sys, e.u))))
    [] e.op = "encode" ->
         LET f == Drift(e.sys, e.x)
             g == Flat(InputMatrix(e.sys, e.x))
         IN C("state-of-the-box-excluded", e.feas)
            \cup (IF ~e.feas THEN {} ELSE
                  IF e.exact
                  THEN C("encoded-drift", Forced(e.fr, f))
                       \cup C("encoded-input-matrix", Forced(e.gr, g))
                  ELSE C("relaxation-contains-the-values",
                         Spans(e.fr, f) /\ Spans(e.gr, g)))
    [] e.op = "bounds" ->
         UNION {C("drift-bounds-sound", Within(Drift(e.sys, e.xs[k]), e.flo, e.fup))
                \cup C("input-matrix-bounds-sound",
                       Within(Flat(InputMatrix(e.sys, e.xs[k])), e.glo, e.gup))
                : k \in 1..Len(e.xs)}
    [] e.op = "same" -> C("system-left-unchanged", e.before = e.after)
    [] e.op = "sizes" -> C("reported-sizes", e.obs = e.want)
    [] e.op = "fit" ->   \* data: rows <<x, u, dx>>; model phi_f(x) + phi_G(x) u, zero at rest
         LET Model(x, u) ==
               VSub(VAdd(Out(e.nf, x), MatVec(Chop(Out(e.ng, x), Len(u)), u)),
                    VAdd(Out(e.nf, e.xs), MatVec(Chop(Out(e.ng, e.xs), Len(e.us)), e.us)))
             explains == \A k \in 1..Len(e.data) :
                           Model(e.data[k][1], e.data[k][2]) = e.data[k][3]
         IN C("explained-data-leaves-the-model", explains => ~e.moved)
            \cup C("unexplained-data-moves-both-networks", (e.gap /\ ~explains) => e.moved)
            \cup C("reported-loss-zero-iff-explained", e.zero = explains)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

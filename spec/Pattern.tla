------------------------------- MODULE Pattern -------------------------------
EXTENDS ReluCore, TraceLib
InPoly(P, q, y) == \A r \in 1..Len(P) : RLe(Dot(P[r], y), q[r])
Set(s) == {s[k] : k \in 1..Len(s)}
V(s, e) ==
  CASE e.op = "pattern" ->
         C("pattern-of-the-input", Consistent(e.net, e.x, e.p))
         \cup C("zero-counts-as-active", e.p = Pattern(e.net, e.x))
         \cup C("all-patterns-consistent",
                \A k \in 1..Len(e.all) : Consistent(e.net, e.x, e.all[k]))
         \cup C("all-patterns-complete",
                /\ Cardinality(Set(e.all)) = Pow2(NTies(e.net, e.x))
                /\ Len(e.all) = Pow2(NTies(e.net, e.x)))
    [] e.op = "piece" ->   \* x selected the pattern p
         LET q == Piece(e.net, e.p)
         IN C("piece-gradient", e.g = Transpose(q.A))
            \cup C("piece-offset", e.h = q.b)
            \cup C("piece-value-at-the-input",
                   VAdd(VecMat(e.x, e.g), e.h) = Out(e.net, e.x))
            \cup C("polyhedron-contains-the-input", InPoly(e.P, e.q, e.x))
            \cup C("piece-valid-on-its-polyhedron",
                   \A k \in 1..Len(e.ys) :
                     InPoly(e.P, e.q, e.ys[k]) =>
                       VAdd(VecMat(e.ys[k], e.g), e.h) = Out(e.net, e.ys[k]))
            \cup C("polyhedron-is-the-pattern-region",
                   \A k \in 1..Len(e.ys) :
                     InPoly(e.P, e.q, e.ys[k]) = Consistent(e.net, e.ys[k], e.p))
    [] e.op = "binaries" -> C("binaries-denote-the-pattern",
                              e.p = BinToPattern(e.net, e.beta))
    [] e.op = "units" ->
         LET pre == PreFlat(e.net, e.x)
         IN C("unit-outputs", e.z = PostFlat(e.net, e.x))
            \cup C("unit-activations",
                   Len(e.beta) = Len(pre) /\
                   \A k \in 1..Len(pre) :
                     \/ pre[k][1] = 0 /\ e.beta[k] \in {0, 1}
                     \/ e.beta[k] = (IF pre[k][1] > 0 THEN 1 ELSE 0))
            \cup C("unit-network-output", e.out = Out(e.net, e.x))
    [] e.op = "warm" ->
         LET pre == PreFlat(e.net, e.x)
         IN C("warm-start-is-an-activation",
              Len(e.beta) = Len(pre) /\
              \A k \in 1..Len(pre) :
                 \/ pre[k][1] = 0 /\ e.beta[k] \in {0, 1}
                 \/ e.beta[k] = (IF pre[k][1] > 0 THEN 1 ELSE 0))
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

------------------------------- MODULE Grads -------------------------------
EXTENDS GradCore, TraceLib
SetOf(s) == {s[k] : k \in 1..Len(s)}
V(s, e) ==
  CASE e.op = "l1" ->
         LET subs == SetOf(e.subs)
             exp == L1Grads(e.x, e.tol, subs, Len(e.x))
         IN C("gradients-missing", exp \subseteq SetOf(e.g))
            \cup C("gradients-that-are-none", SetOf(e.g) \subseteq exp)
            \cup C("number-of-gradients",
                   Len(e.g) = PowN(2 + Len(e.subs), L1Kinks(e.x, e.tol)))
    [] e.op = "linf" ->
         LET exp == LInfGrads(e.x, e.tol)
         IN C("gradients-missing", exp \subseteq SetOf(e.g))
            \cup C("gradients-that-are-none", SetOf(e.g) \subseteq exp)
            \cup C("number-of-gradients", Len(e.g) = Cardinality(exp))
    [] e.op = "net" ->
         LET exp == AllGradients(e.net, e.x, e.tol)
         IN C("gradients-missing", exp \subseteq SetOf(e.g))
            \cup C("gradients-that-are-none", SetOf(e.g) \subseteq exp)
            \cup C("number-of-gradients", Len(e.g) = Pow2(e.kinks))
            \cup C("harness-kinks", LET f == PreFlat(e.net, e.x) IN
                   e.kinks = Cardinality({k \in 1..Len(f) : RLe(RAbs(f[k]), e.tol)}))
    [] e.op = "sum" ->
         C("pairwise-sums",
           /\ Len(e.s) = Len(e.x) * Len(e.y)
           /\ \A i1 \in 1..Len(e.x) : \A j \in 1..Len(e.y) :
                e.s[(i1 - 1) * Len(e.y) + j] = VAdd(e.x[i1], e.y[j]))
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

------------------------------- MODULE Params -------------------------------
(* The state is the network (and its gradients) as the calls so far left   *)
(* it; every read must agree with it.                                      *)
EXTENDS ParamCore, TraceLib
Same(net, w, v, bias, c) ==
  /\ WidthsAll(net) = w
  /\ net.c = c
  /\ Layers(net) = Unflat(v, w, bias, 1)
Sorted(x, y) == x = y
V(s, e) ==
  CASE e.op = "setup" ->
         C("network-as-requested",
           /\ WidthsAll(e.net) = e.w /\ e.kinds = e.expkinds /\ e.bias = e.hasbias
           /\ e.c = e.net.c \/ NL(e.net) = 1)
         \cup C("parameters-in-order",
                e.given => Layers(e.net) = Unflat(e.v, e.w, e.bias, 1))
    [] e.op = "update" ->
         C("parameters-in-order", Same(e.net, s.w, e.v, s.bias, s.c))
    [] e.op = "extract" ->
         C("flat-vector", e.v = s.v)
    [] e.op = "nudge" -> {}
    [] e.op = "grad" ->
         \* gradients known to the harness per layer; <<>> where absent
         C("flat-gradient",
           e.v = Flatten([k \in 1..Len(e.gW) |->
                            IF e.gW[k] = <<>> THEN [r \in 1..s.w[k + 1] |-> VZero(s.w[k])]
                            ELSE e.gW[k]],
                         [k \in 1..Len(e.gb) |->
                            IF e.gb[k] = <<>> THEN VZero(s.w[k + 1]) ELSE e.gb[k]],
                         s.bias))
    [] e.op = "zero" ->
         C("gradients-cleared",
           \A k \in 1..Len(e.after) : \A j \in 1..Len(e.after[k]) : e.after[k][j] = R0)
         \cup C("absent-gradients-stay-absent", e.none = e.nonebefore)
    [] e.op = "structure" ->
         C("structure", e.w = s.w /\ e.bias = s.bias /\ (Len(s.w) > 2 => e.c = s.c))
    [] e.op = "saved" ->
         C("reloaded-function",
           \A k \in 1..Len(e.xs) : VNearT(e.ys[k], Out(s.net, e.xs[k]), 2))
         \cup C("recorded-fields", e.fields = e.expfields)
         \cup C("recorded-structure", e.w = s.w /\ e.bias = s.bias)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) ==
  CASE e.op = "setup" ->
         [w |-> e.w, bias |-> e.bias, c |-> e.net.c, net |-> e.net,
          v |-> IF e.given THEN e.v ELSE Flatten(e.net.W, e.net.b, e.bias)]
    [] e.op = "update" -> [s EXCEPT !.v = e.v, !.net =
         LET ls == Unflat(e.v, s.w, s.bias, 1)
         IN [W |-> [k \in 1..Len(ls) |-> ls[k].W], b |-> [k \in 1..Len(ls) |-> ls[k].b],
             c |-> s.c]]
    [] e.op = "nudge" ->   \* one entry of the network changed by hand
         LET v1 == [s.v EXCEPT ![e.at] = e.val]
             ls == Unflat(v1, s.w, s.bias, 1)
         IN [s EXCEPT !.v = v1, !.net =
              [W |-> [k \in 1..Len(ls) |-> ls[k].W],
               b |-> [k \in 1..Len(ls) |-> ls[k].b], c |-> s.c]]
    [] OTHER -> s
S0 == [w |-> <<1, 1>>, bias |-> TRUE, c |-> R0, net |-> [W |-> <<>>, b |-> <<>>, c |-> R0], v |-> <<>>]
=============================================================================

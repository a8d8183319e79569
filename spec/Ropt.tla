-------------------------------- MODULE Ropt --------------------------------
EXTENDS RoptCore, TraceLib
\* state: [kind, m, n, eps, a, v (packed parameters), R]

MClose(o, M) == Len(o) = Len(M) /\ \A i1 \in 1..Len(M) : VNearT(o[i1], M[i1], 8)
Value(s) ==
  CASE s.kind = "spd" -> Spd(s.v, s.m, s.n, s.eps)
    [] s.kind = "free" -> [r \in 1..s.m |-> SubSeq(s.v, (r - 1) * s.n + 1, r * s.n)]
    [] s.kind = "fixed" -> s.R
    [] s.kind = "svd" -> s.R
\* products of recorded (tick) matrices
TMat(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(B[1]) |->
                ISum([k \in 1..Len(B) |-> TMul(A[r][k], B[k][c])])]]
TT(A) == [c \in 1..Len(A[1]) |-> [r \in 1..Len(A) |-> A[r][c]]]
IsEye(A, tol) == \A r \in 1..Len(A) : \A c \in 1..Len(A) :
                   Abs(A[r][c] - (IF r = c THEN K ELSE 0)) <= tol
SvdOk(e, s) ==
  LET sg == Singular(s.a, s.v)
      D == [i1 \in 1..s.m |-> [j \in 1..s.n |-> IF i1 = j THEN ToTick(sg[i1]) ELSE 0]]
      P == TMat(TMat(e.U, D), e.V)
  IN /\ IsEye(TMat(e.U, TT(e.U)), 16) /\ IsEye(TMat(e.V, TT(e.V)), 16)
     /\ \A i1 \in 1..s.m : \A j \in 1..s.n : Abs(P[i1][j] - e.R[i1][j]) <= 200
V(s, e) ==
  CASE e.op = "new" -> C("trainable-variables", e.nvar = (IF e.kind = "fixed" THEN 0 ELSE 1))
                       \cup C("fixed-flag", e.fixed = (e.kind = "fixed"))
    [] e.op = "set" -> C("value-not-set", e.grad)
    [] e.op = "direct" -> C("value-not-set", e.grad)
    [] e.op = "step" -> {}
    [] e.op = "read" ->
         (IF s.kind = "svd" THEN
            C("transform-of-the-parameters", SvdOk(e, s))
            \cup C("value-set-is-read-back", s.R # <<>> => MClose(e.R, s.R))
          ELSE C("transform-of-the-parameters", MClose(e.R, Value(s))))
         \cup C("parameters", VNearT(e.v, s.v, 8) \/ s.kind \in {"fixed"})
    [] e.op = "export" ->
         C("exported-parameters",
           CASE s.kind = "spd" -> /\ e.eps = s.eps /\ VNearT(e.v, s.v, 8)
                                  /\ e.size = <<s.m, s.n>>
             [] s.kind = "svd" -> e.a = s.a /\ e.size = <<s.m, s.n>>
             [] s.kind = "free" -> e.size = <<s.m, s.n>>
             [] OTHER -> TRUE)
    [] e.op = "floor" ->
         \* y = R x computed by the code for integer x: the floor holds
         C("floor",
           CASE s.kind = "spd" -> e.quad * 1 >= ToTick(RMul(s.eps, Dots(e.x))) - 8
             [] s.kind = "svd" ->
                  s.m >= s.n =>
                  e.norm2 >= ToTick(RMul(SqN(RMinSeq(s.a)), Dots(e.x))) - 64
             [] OTHER -> TRUE)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) ==
  CASE e.op = "new" -> [kind |-> e.kind, m |-> e.m, n |-> e.n, eps |-> e.eps,
                        a |-> e.a, v |-> e.v, R |-> e.R]
    [] e.op = "set" -> [s EXCEPT !.v = e.v, !.R = e.R]
    [] e.op = "direct" -> [s EXCEPT !.v = e.v, !.R = <<>>]
    [] e.op = "step" -> [s EXCEPT !.v = VAdd(s.v, e.d), !.R = <<>>]
    [] OTHER -> s
S0 == [kind |-> "none", m |-> 0, n |-> 0, eps |-> R0, a |-> <<>>, v |-> <<>>, R |-> <<>>]
=============================================================================

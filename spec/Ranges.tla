------------------------------- MODULE Ranges -------------------------------
EXTENDS CertCore, TraceLib
V(s, e) ==
  CASE e.op = "cert" ->
         \* e.q, e.c, e.k: max of c.x + k as observed (and of its negation)
         C("certificate-holds:" \o e.key, Proves(e.q, e.c, e.cert))
         \cup C(e.side, Is(e.obs, e.cert,
                           IF e.cert.kind = "opt"
                           THEN RAdd(Dot(e.c, e.cert.x), e.k) ELSE R0))
    [] e.op = "interval" ->
         UNION {C("lower-end", NearT(e.olo[k], RAdd(RowLo(e.A[k], e.lo, e.up), e.b[k]), 1))
                \cup C("upper-end", NearT(e.oup[k], RAdd(RowUp(e.A[k], e.lo, e.up), e.b[k]), 1)) :
                k \in 1..Len(e.A)}
         \cup C("one-range-per-row", Len(e.olo) = Len(e.A) /\ Len(e.oup) = Len(e.A))
    [] e.op = "leaky" ->
         LET E == LeakyEnds(e.c, e.lo, e.up)
         IN C("lower-end", NearT(e.olo, SetMin(E), 1))
            \cup C("upper-end", NearT(e.oup, SetMax(E), 1))
    [] e.op = "leakyv" ->
         UNION {LET E == LeakyEnds(e.c, e.lo[k], e.up[k])
                IN C("lower-end", NearT(e.olo[k], SetMin(E), 1))
                   \cup C("upper-end", NearT(e.oup[k], SetMax(E), 1)) : k \in 1..Len(e.lo)}
    [] e.op = "bounded" ->
         \* certs: one per signed axis; bounded iff each is bounded
         C("certificate-holds:bounded",
           \A k \in 1..Len(e.certs) : Proves(e.q, e.cs[k], e.certs[k]))
         \cup C("boundedness", e.obs = (\A k \in 1..Len(e.certs) : e.certs[k].kind = "opt"))
    [] e.op = "project" ->
         \* nearest point: feasible, and x - y a conic combination of the
         \* outer normals active at y
         C("certificate-holds:project",
           /\ Feasible(e.q, e.y)
           /\ NonNeg(e.l)
           /\ VSub(e.x, e.y) = Combo(RowsOf(e.q), e.l, e.q.n)
           /\ \A k \in 1..Len(e.l) : e.l[k][1] > 0 =>
                Dot(RowsOf(e.q)[k][1], e.y) = RowsOf(e.q)[k][2])
         \cup C("nearest-point", VNearT(e.obs, e.y, 12))
         \cup C("inside-points-unchanged", Feasible(e.q, e.x) => VNearT(e.obs, e.x, 0))
    [] e.op = "lpgrad" ->
         \* unique optimum and multipliers: the derivatives of the value
         LET m == Len(e.q.C)
             k == Len(e.q.E)
             mu == [j \in 1..k |-> RSub(e.cert.l[m + j], e.cert.l[m + k + j])]
             x == e.cert.x
         IN C("certificate-holds:lpgrad", Proves(e.q, e.c, e.cert))
            \cup C("value-derivative",
              /\ VNearT(e.gc, x, 12) /\ e.gd = K
              /\ \A j \in 1..m : NearT(e.gb[j], e.cert.l[j], 12)
              /\ \A j \in 1..k : NearT(e.gf[j], mu[j], 12)
              /\ \A j \in 1..m : VNearT(e.gA[j], VScale(RNeg(e.cert.l[j]), x), 12)
              /\ \A j \in 1..k : VNearT(e.gE[j], VScale(RNeg(mu[j]), x), 12))
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

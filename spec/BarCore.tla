------------------------------ MODULE BarCore ------------------------------
(***************************************************************************)
(* Barrier candidates h(x) = phi(x) - phi(xs) + c, and what their          *)
(* certificates maximise.  B: [net, xs, c].  A region is a union of        *)
(* polytopes [P, q]; T is a closed system as in LyapCore.                  *)
(***************************************************************************)
EXTENDS LyapCore
Bar(B, x) == RAdd(RSub(Out(B.net, x)[1], Out(B.net, B.xs)[1]), B.c)
\* one step from x to y: must be <= 0
BarGap(B, eps, x, y) == RSub(RMul(RSub(R1, eps), Bar(B, x)), Bar(B, y))
InPoly(p, x, tol) == \A k \in 1..Len(p.P) : RLe(Dot(p.P[k], x), RAdd(p.q[k], tol))
InRegion(ps, x, tol) == \E k \in 1..Len(ps) : InPoly(ps[k], x, tol)
=============================================================================

------------------------------ MODULE RoptCore ------------------------------
(***************************************************************************)
(* Parametrisations of the state transform R (m x n).                      *)
(*  spd:  top n x n block = L L' + eps I, L lower triangular packed column *)
(*        by column; the remaining rows free                               *)
(*  svd:  U diag(a + v^2) V                                                *)
(*  free: the matrix itself;  fixed: a constant                            *)
(***************************************************************************)
EXTENDS Rat
\* packed position of L[i][j], i >= j, for size n (column by column)
RECURSIVE ColStart(_, _)
ColStart(n, j) == IF j = 1 THEN 0 ELSE ColStart(n, j - 1) + n - (j - 2)
LowerTri(v, n) ==
  [i \in 1..n |-> [j \in 1..n |-> IF i >= j THEN v[ColStart(n, j) + i - j + 1] ELSE R0]]
Spd(v, m, n, eps) ==
  LET L == LowerTri(v, n)
      P == MatMul(L, Transpose(L))
      c == (n * (n + 1)) \div 2
  IN [i \in 1..m |-> [j \in 1..n |->
        IF i <= n THEN RAdd(P[i][j], IF i = j THEN eps ELSE R0)
        ELSE v[c + (i - n - 1) * n + j]]]
DiagMN(s, m, n) == [i \in 1..m |-> [j \in 1..n |-> IF i = j THEN s[i] ELSE R0]]
SqN(v) == RMul(v, v)
Singular(a, v) == [k \in 1..Len(a) |-> RAdd(a[k], SqN(v[k]))]
\* |R x| >= floor |x| for the vectors of a small grid (squares compared)
Dots(v) == Dot(v, v)
QuadForm(P, x) == Dot(x, MatVec(P, x))
=============================================================================

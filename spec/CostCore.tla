------------------------------ MODULE CostCore ------------------------------
(***************************************************************************)
(* Cost-to-go along simulations of autonomous hybrid systems, and the      *)
(* partition of a box into cells.                                          *)
(*  cost: [Q, w, c]: x'Qx + w.x + c                                        *)
(***************************************************************************)
EXTENDS HybridCore
Stage(cost, x) == RAdd(RAdd(Dot(x, MatVec(cost.Q, x)), Dot(cost.w, x)), cost.c)
\* goal: a state or <<>>
AtGoal(goal, x) == goal # <<>> /\ x = goal
RECURSIVE Traj(_, _, _, _)
Traj(sys, goal, xs, n) ==
  LET x == xs[Len(xs)] IN
  IF n = 0 \/ AtGoal(goal, x) \/ Modes(sys, x) = {} THEN xs
  ELSE Traj(sys, goal, Append(xs, Image(sys[FirstMode(sys, x)], x)), n - 1)
\* the trajectory needed a step from a state without a mode
LeftAt(sys, goal, xs, n) ==
  Len(xs) < n + 1 /\ ~AtGoal(goal, xs[Len(xs)])
Unique(sys, xs) == \A k \in 1..Len(xs) : Cardinality(Images(sys, xs[k])) <= 1
RECURSIVE TailCost(_, _, _)
TailCost(cost, xs, k) ==
  IF k > Len(xs) THEN R0 ELSE RAdd(Stage(cost, xs[k]), TailCost(cost, xs, k + 1))
CostsToGo(cost, xs) == [k \in 1..Len(xs) |-> TailCost(cost, xs, k)]
\* cells of a box: index vectors, with their centre and limits
Width(b, j) == RDiv(RSub(b.up[j], b.lo[j]), RInt(b.n[j]))
CellIdx(b) == {f \in [1..Len(b.n) -> 0..7] : \A j \in 1..Len(b.n) : f[j] < b.n[j]}
Centre(b, f) == TLCEval([j \in 1..Len(b.n) |->
  RAdd(b.lo[j], RMul(Norm(2 * f[j] + 1, 2), Width(b, j)))])
CellLo(b, f) == TLCEval([j \in 1..Len(b.n) |->
  RClamp(RSub(RAdd(b.lo[j], RMul(RInt(f[j]), Width(b, j))), RMul(b.d[j], Width(b, j))),
         b.lo[j], b.up[j])])
CellUp(b, f) == TLCEval([j \in 1..Len(b.n) |->
  RClamp(RAdd(RAdd(b.lo[j], RMul(RInt(f[j] + 1), Width(b, j))), RMul(b.d[j], Width(b, j))),
         b.lo[j], b.up[j])])
=============================================================================

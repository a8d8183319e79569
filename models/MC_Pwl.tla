------------------------------- MODULE MC_Pwl --------------------------------
(***************************************************************************)
(* Vertices suffice: every admitted function without slack is continuous,  *)
(* bounded below by the norm and decreasing on whole cells, and a function *)
(* with these guarantees on the cells is admitted.  Layouts: an interval   *)
(* cut at 0 with the equilibrium at 0 or inside the right cell; a square   *)
(* cut by a line.                                                          *)
(***************************************************************************)
EXTENDS PwlCore
CONSTANTS Amp, Two
VARIABLES y, c, d, s1, s2
H == Norm(1, 2)
I(k) == RInt(k)
P(k) == <<I(k)>>
Rates == {R0, H}
Line(a1, g1, a2, g2, e1, e2) ==
  [e1 |-> e1, e2 |-> e2, xs |-> P(0), eq |-> 1,
   der |-> << [m |-> 1, vs |-> <<P(-1), P(0)>>, A |-> <<P(a1)>>, g |-> P(g1)],
              [m |-> 2, vs |-> <<P(0), P(2)>>, A |-> <<P(a2)>>, g |-> P(g2)] >>,
   pos |-> << [m |-> 1, vs |-> <<P(-1), P(0)>>], [m |-> 2, vs |-> <<P(2), P(0)>>] >>,
   con |-> << [m |-> 1, m2 |-> 2, vs |-> <<P(0)>>] >>]
Off(a1, g1, a2, g2, e1, e2) ==
  [Line(a1, g1, a2, g2, e1, e2) EXCEPT
     !.xs = P(1), !.eq = 2,
     !.pos = << [m |-> 1, vs |-> <<P(-1), P(0)>>], [m |-> 2, vs |-> <<P(0), P(1)>>],
                [m |-> 2, vs |-> <<P(1), P(2)>>] >>]
Q(a, b) == <<I(a), I(b)>>
Square(e1, e2) ==
  [e1 |-> e1, e2 |-> e2, xs |-> Q(0, 0), eq |-> 1,
   der |-> << [m |-> 1, vs |-> <<Q(0, -1), Q(1, -1), Q(1, 1), Q(0, 1)>>,
               A |-> <<Q(-1, 0), Q(0, -2)>>, g |-> Q(0, 0)],
              [m |-> 2, vs |-> <<Q(0, -1), Q(-1, -1), Q(-1, 1), Q(0, 1)>>,
               A |-> <<Q(-1, 1), Q(0, -1)>>, g |-> Q(0, 0)] >>,
   pos |-> << [m |-> 1, vs |-> <<Q(0, 0), Q(1, 0), Q(1, 1), Q(0, 1)>>],
              [m |-> 1, vs |-> <<Q(0, 0), Q(1, 0), Q(1, -1), Q(0, -1)>>],
              [m |-> 2, vs |-> <<Q(0, 0), Q(-1, 0), Q(-1, 1), Q(0, 1)>>],
              [m |-> 2, vs |-> <<Q(0, 0), Q(-1, 0), Q(-1, -1), Q(0, -1)>>] >>,
   con |-> << [m |-> 1, m2 |-> 2, vs |-> <<Q(0, -1), Q(0, 1)>>] >>]
Z == -Amp..Amp
Init ==
  /\ s1 \in {R0, H} /\ s2 \in {R0, H}
  /\ IF Two
     THEN /\ \E e1, e2 \in Rates : y = Square(e1, e2)
          /\ \E a, b, a2, b2 \in Z : c = <<Q(a, b), Q(a2, b2)>>
          /\ \E p, q \in {-1, 0, 1} : d = Q(p, q)
     ELSE /\ \E e1, e2 \in Rates, a1, a2 \in {-1, 1}, g1, g2 \in {0, 1} :
               y \in {Line(a1, g1, a2, g2, e1, e2), Off(a1, g1, a2, g2, e1, e2)}
          /\ \E a, b \in Z : c = <<P(a), P(b)>>
          /\ \E p, q \in -1..1 : d = Q(p, q)
Next == UNCHANGED <<y, c, d, s1, s2>>
Spec == Init /\ [][Next]_<<y, c, d, s1, s2>>
\* ---- points of the cells (not only vertices)
Half(k) == Norm(k, 2)
Pts(m) == IF Two
          THEN {<<Half(a), Half(b)>> : a \in (IF m = 1 THEN 0..2 ELSE -2..0), b \in -2..2}
          ELSE {<<Half(a)>> : a \in (IF m = 1 THEN -2..0 ELSE 0..4)}
Shared == Pts(1) \cap Pts(2)
Lyapunov(r1, r2) ==
  /\ PwlV(c, d, y.eq, y.xs) = R0
  /\ \A x \in Shared : PwlV(c, d, 1, x) = PwlV(c, d, 2, x)
  /\ \A m \in {1, 2} : \A x \in Pts(m) :
       /\ RLe(RSub(RMul(y.e1, L1(VSub(x, y.xs))), r2), PwlV(c, d, m, x))
       /\ RLe(Dot(c[m], Flow(y.der[m], x)), RSub(r1, RMul(y.e2, PwlV(c, d, m, x))))
AdmittedExactlyIfLyapunov == Admit(y, c, d, s1, s2) <=> Lyapunov(s1, s2)
\* the price of the least slacks is zero exactly for Lyapunov functions
ZeroPrice == (Anchored(y, c, d) /\ Continuous(y, c, d)) =>
   (BestPrice(y, c, d, Norm(1, 4)) = R0 <=> Lyapunov(R0, R0))
=============================================================================

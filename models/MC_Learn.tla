------------------------------ MODULE MC_Learn -------------------------------
(***************************************************************************)
(* Every schedule of batches and epochs: programs run exactly on the       *)
(* updates divisible by the frequency, each update moves by its own        *)
(* gradients only, and the divergence is never negative.                   *)
(***************************************************************************)
EXTENDS LearnCore, TLC
CONSTANTS MaxN, Freqs
VARIABLES s, sum
V1(a) == <<RInt(a), RInt(1 - a)>>
Batches == {[dyn |-> V1(a), smp |-> <<V1(b), VZero(2), V1(c)>>, prg |-> <<V1(c), VZero(2), V1(b)>>]
            : a \in {-1, 2}, b \in {0, 1}, c \in {0, 1}}
Init == /\ \E f \in Freqs, d \in {1, 2} : s = NewLearner(<<R1, R0>>, Norm(1, 2 * d), f)
        /\ sum = <<R0, R0>>
Next == /\ s.n < MaxN
        /\ \E b \in Batches :
             /\ s' = BatchStep(s, b)
             /\ sum' = VAdd(sum, Grad(<<b.dyn>> \o b.smp \o (IF Due(s) THEN b.prg ELSE <<>>)))
Spec == Init /\ [][Next]_<<s, sum>>
ProgramsRunWhenDue == s.progs = IF s.freq = 0 THEN 0 ELSE (s.n + s.freq - 1) \div s.freq
MovesByItsGradients == s.th = VSub(<<R1, R0>>, VScale(s.lr, sum))
DivergenceNonNegative ==
  \A m \in {-1, 0, 1}, j, k \in 0..2 :
     /\ KlT(<<<<RInt(m), R0>>>>, <<<<j, k>>>>) >= 0
     /\ KlT(<<<<RInt(m), R0>>>>, <<<<j, k>>>>) = 0 <=> (m = 0 /\ j = 0 /\ k = 0)
\* predicting the image itself is best, for both image errors
CrossLeastAtTheTruth == \A p, t \in {Norm(1, 4), Norm(1, 2), Norm(3, 4)} :
  /\ CrossT(p, t) >= CrossT(t, t) /\ SqT(p, t) >= 0 /\ SqT(t, t) = 0
SigmoidSymmetric == \A k \in 0..3 : SigT(k) + SigT(-k) = K
=============================================================================

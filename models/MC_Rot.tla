------------------------------- MODULE MC_Rot --------------------------------
(* All combinations of the rational angles: orthonormality, determinant 1, *)
(* and the reported derivatives are rotations of the skew generators.      *)
EXTENDS RotCore
VARIABLE a
Init == a \in Pairs \X Pairs \X Pairs
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
Orthonormal == MatMul(Transpose(RotMat(a)), RotMat(a)) = Eye(3)
Det1 == Det3(RotMat(a)) = R1
Skew(M) == \A i, j \in 1..3 : M[i][j] = RNeg(M[j][i])
\* R' = R S with S skew, so R^T R' is skew and of unit rate for roll
DerivSkew == \A D \in {DRoll(a), DPitch(a), DYaw(a)} :
                Skew(MatMul(Transpose(RotMat(a)), D))
RollBodyRate == MatMul(Transpose(RotMat(a)), DRoll(a)) =
   <<<<R0, R0, R0>>, <<R0, R0, RInt(-1)>>, <<R0, R1, R0>>>>
YawWorldRate == MatMul(DYaw(a), Transpose(RotMat(a))) =
   <<<<R0, RInt(-1), R0>>, <<R1, R0, R0>>, <<R0, R0, R0>>>>
=============================================================================

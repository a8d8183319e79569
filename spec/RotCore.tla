------------------------------- MODULE RotCore -------------------------------
(***************************************************************************)
(* Roll-pitch-yaw rotations with exact arithmetic: an angle is given by    *)
(* its (cosine, sine) pair, both rational (Pythagorean angles).            *)
(***************************************************************************)
EXTENDS Rat
Neg(a) == RNeg(a)
Rx(c, s) == <<<<R1, R0, R0>>, <<R0, c, Neg(s)>>, <<R0, s, c>>>>
Ry(c, s) == <<<<c, R0, s>>, <<R0, R1, R0>>, <<Neg(s), R0, c>>>>
Rz(c, s) == <<<<c, Neg(s), R0>>, <<s, c, R0>>, <<R0, R0, R1>>>>
DRx(c, s) == <<<<R0, R0, R0>>, <<R0, Neg(s), Neg(c)>>, <<R0, c, Neg(s)>>>>
DRy(c, s) == <<<<Neg(s), R0, c>>, <<R0, R0, R0>>, <<Neg(c), R0, Neg(s)>>>>
DRz(c, s) == <<<<Neg(s), Neg(c), R0>>, <<c, Neg(s), R0>>, <<R0, R0, R0>>>>
\* a = <<roll, pitch, yaw>>, each <<cos, sin>>
RotMat(a) == MatMul(Rz(a[3][1], a[3][2]),
                    MatMul(Ry(a[2][1], a[2][2]), Rx(a[1][1], a[1][2])))
DRoll(a) == MatMul(Rz(a[3][1], a[3][2]),
                   MatMul(Ry(a[2][1], a[2][2]), DRx(a[1][1], a[1][2])))
DPitch(a) == MatMul(Rz(a[3][1], a[3][2]),
                    MatMul(DRy(a[2][1], a[2][2]), Rx(a[1][1], a[1][2])))
DYaw(a) == MatMul(DRz(a[3][1], a[3][2]),
                  MatMul(Ry(a[2][1], a[2][2]), Rx(a[1][1], a[1][2])))
Det3(M) ==
  LET m(i, j) == M[i][j]
      t(i, j, k) == RMul(m(1, i), RMul(m(2, j), m(3, k)))
  IN RSum(<<t(1, 2, 3), t(2, 3, 1), t(3, 1, 2),
            RNeg(t(3, 2, 1)), RNeg(t(2, 1, 3)), RNeg(t(1, 3, 2))>>)
Pairs == {<<R1, R0>>, <<R0, R1>>, <<RInt(-1), R0>>, <<R0, RInt(-1)>>,
          <<<<3, 5>>, <<4, 5>>>>, <<<<4, 5>>, <<-3, 5>>>>,
          <<<<-5, 13>>, <<12, 13>>>>, <<<<-12, 13>>, <<-5, 13>>>>,
          <<<<15, 17>>, <<8, 17>>>>}
=============================================================================

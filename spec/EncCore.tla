------------------------------- MODULE EncCore -------------------------------
(***************************************************************************)
(* Encoder/decoder pairs: which image sizes a pair supports, and the shape *)
(* each stage produces (convolution, pooling and upsampling arithmetic).   *)
(***************************************************************************)
EXTENDS Rat
Conv(w, k, stride, pad) == ((w + 2 * pad - k) \div stride) + 1
Pool(w) == w \div 2
TConv(w, k, stride) == (w - 1) * stride + k
EncSize(fam, w) ==
  CASE fam = "Linear1" -> w
    [] fam = "CNN1" -> Pool(Conv(Pool(Conv(w, 3, 1, 1)), 3, 1, 1))
    [] fam = "CNN2" -> Conv(Conv(Conv(Conv(w, 5, 1, 0), 5, 2, 0), 5, 2, 0), 5, 2, 0)
DecIn(fam, w) ==
  CASE fam = "Linear1" -> w
    [] fam = "CNN1" -> w \div 4
    [] fam = "CNN2" -> ((w - 4) \div 2 - 4) \div 2 - 4
DecOut(fam, w) ==
  CASE fam = "Linear1" -> w
    [] fam = "CNN1" -> TConv(TConv(DecIn(fam, w), 2, 2), 2, 2)
    [] fam = "CNN2" -> TConv(2 * TConv(2 * TConv(DecIn(fam, w), 5, 1), 5, 1), 5, 1)
Supported(fam, w) ==
  CASE fam = "Linear1" -> w >= 1
    [] fam = "CNN1" -> w >= 4 /\ w % 4 = 0
    [] fam = "CNN2" -> w >= 36 /\ w % 4 = 0
Channels(gray) == IF gray THEN 2 ELSE 6
=============================================================================

------------------------------- MODULE MC_Enc --------------------------------
(* For every image side up to 200: a supported side is restored exactly,   *)
(* and every stage of the pair has at least one pixel.                     *)
EXTENDS EncCore
VARIABLES fam, w
Init == fam \in {"Linear1", "CNN1", "CNN2"} /\ w \in 1..200
Next == UNCHANGED <<fam, w>>
Spec == Init /\ [][Next]_<<fam, w>>
Restored == Supported(fam, w) => DecOut(fam, w) = w
NonEmpty == Supported(fam, w) => EncSize(fam, w) >= 1 /\ DecIn(fam, w) >= 1
\* no larger set of sides would do
Tight == (~Supported(fam, w) /\ fam # "Linear1" /\ w >= 36) => DecOut(fam, w) # w
=============================================================================

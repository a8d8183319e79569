------------------------------- MODULE MC_Ctrl -------------------------------
(* Second-order control-affine systems over all small weights: the position *)
(* derivative is the velocity whatever the input; the dynamics is affine in *)
(* the input between its limits and constant beyond them.                   *)
EXTENDS CtrlCore
VARIABLES sys, x
Ws == {RInt(-1), R0, R1}
Hid(w, v) == [W |-> <<<<w>>, v>>, b |-> <<<<R0>>, VZero(Len(v))>>, c |-> <<1, 2>>]
Init ==
  /\ \E wa \in {<<a, b>> : a \in Ws, b \in Ws} : \E wb \in {<<R1, b>> : b \in Ws} :
     \E va \in Ws : \E vb \in {<<<<a>>, <<b>>>> : a \in Ws, b \in Ws} :
       sys = [kind |-> "second", A |-> <<>>, B |-> <<>>, na |-> Hid(wa, <<<<va>>>>),
              nb |-> Hid(wb, vb), nq |-> 1, ulo |-> <<RInt(-1), R0>>, uup |-> <<R1, RInt(2)>>]
  /\ x \in {<<a, b>> : a \in {RInt(-2), R1}, b \in {RInt(-1)}}
Next == FALSE /\ UNCHANGED <<sys, x>>
Spec == Init /\ [][Next]_<<sys, x>>
Us == {<<a, b>> : a \in {RInt(-3), RInt(-1), R1}, b \in {R0, RInt(2), RInt(3)}}
InLim(u) == InBox(u, sys.ulo, sys.uup)
PositionIsVelocity == \A u \in Us : Dyn(sys, x, u)[1] = x[2]
AffineInside ==
  \A u \in Us : \A w \in Us : (InLim(u) /\ InLim(w)) =>
    LET m == VScale(<<1, 2>>, VAdd(u, w))
    IN Dyn(sys, x, m) = VScale(<<1, 2>>, VAdd(Dyn(sys, x, u), Dyn(sys, x, w)))
ClampedOutside == \A u \in Us : Dyn(sys, x, u) = Dyn(sys, x, Clamp(sys, u))
RowMajor ==
  LET o == Out(sys.nb, x) IN
  \A u \in Us : InLim(u) =>
    Dyn(sys, x, u)[2] = RAdd(Out(sys.na, x)[1], RAdd(RMul(o[1], u[1]), RMul(o[2], u[2])))
=============================================================================

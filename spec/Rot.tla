--------------------------------- MODULE Rot ---------------------------------
EXTENDS RotCore, TraceLib
V(s, e) ==
  CASE e.op = "rot" -> C("yaw-pitch-roll-product", MNear(e.R, RotMat(e.a)))
    [] e.op = "grad" ->
         C("roll-derivative", MNear(e.dr, DRoll(e.a)))
         \cup C("pitch-derivative", MNear(e.dp, DPitch(e.a)))
         \cup C("yaw-derivative", MNear(e.dy, DYaw(e.a)))
    [] e.op = "type" -> C("kind-and-dtype-kept", e.ok)
    [] OTHER -> {"unexpected:" \o e.op}
N(s, e) == s
S0 == 0
=============================================================================

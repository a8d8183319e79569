------------------------------- MODULE SimCore -------------------------------
(***************************************************************************)
(* Sample generation from a simulator.  The simulator is a stand-in with   *)
(* exact integer-coefficient motion, so that every datum is determined:   *)
(*   one step: q_i += v_i, v_i += i, clock += 1                            *)
(* "clock" stands for the rest of the simulated world (other bodies); it   *)
(* is saved with the initial world and restored before each sample.       *)
(* A camera pixel shows the whole world.                                  *)
(***************************************************************************)
EXTENDS Rat
World(x, clock) ==
  LET n == Len(x) \div 2 IN
  [q |-> SubSeq(x, 1, n), v |-> SubSeq(x, n + 1, 2 * n), clock |-> clock]
StepW(w) ==
  [q |-> TLCEval([k \in 1..Len(w.q) |-> RAdd(w.q[k], w.v[k])]),
   v |-> TLCEval([k \in 1..Len(w.v) |-> RAdd(w.v[k], <<k, 1>>)]),
   clock |-> w.clock + 1]
RECURSIVE StepN(_, _)
StepN(w, n) == IF n = 0 THEN w ELSE StepN(StepW(w), n - 1)
State(w) == w.q \o w.v
\* rigid bodies: the state lists positions (3), angles (3), velocities (3),
\* rates (3), which is the same q/v split.
Floor(r) == r[1] \div r[2]
Pixel(w, ch, r, c) ==
  (Floor(RSum([k \in 1..Len(State(w)) |-> RMul(<<4 * k, 1>>, State(w)[k])]))
   + 5 * w.clock + 70 * ch + 3 * r + c) % 256
Image(w, size, gray) ==
  IF gray
  THEN << [r \in 1..size |-> [c \in 1..size |->
            Norm(2989 * Pixel(w, 0, r - 1, c - 1) + 5870 * Pixel(w, 1, r - 1, c - 1)
                 + 1140 * Pixel(w, 2, r - 1, c - 1), 10000)]] >>
  ELSE TLCEval([ch \in 1..3 |-> [r \in 1..size |-> [c \in 1..size |->
            <<Pixel(w, ch - 1, r - 1, c - 1), 1>>]]])
\* half-interval step count for a requested duration
Half(dt) == Floor(RMul(<<120, 1>>, dt))
Sample(cfg, x0, dt) ==
  LET w0 == World(x0, cfg.clock0)
      w1 == StepN(w0, Half(dt))
      w2 == StepN(w1, Half(dt))
  IN [x |-> State(w2), X |-> Image(w0, cfg.size, cfg.gray) \o Image(w1, cfg.size, cfg.gray),
      Xn |-> Image(w2, cfg.size, cfg.gray)]
RECURSIVE Roll(_, _, _, _)
Roll(cfg, x0, dt, n) ==   \* states of a rollout of n steps
  IF n = 0 THEN <<x0>>
  ELSE LET s == Roll(cfg, x0, dt, n - 1) IN Append(s, Sample(cfg, s[n], dt).x)
RollX(cfg, x0, dt, n) ==  \* its n + 2 images
  LET xs == Roll(cfg, x0, dt, n)
      Half2(X) == LET m == Len(X) \div 2 IN <<SubSeq(X, 1, m), SubSeq(X, m + 1, 2 * m)>>
  IN Half2(Sample(cfg, x0, dt).X) \o [k \in 1..n |-> Sample(cfg, xs[k], dt).Xn]
=============================================================================

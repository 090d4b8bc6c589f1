----------------------------- MODULE GenConic -----------------------------
EXTENDS Turns, Rnd, Json
VARIABLES phase, s
vars == <<phase, s>>

Radii == << RI(1), RI(2), RQ(1, 3), RI(7), RQ(5, 4) >>

Kinds == << "circle", "arc", "arc", "ellipse", "ellipse-arc", "ellipse-arc", "refused" >>
Scenario(kind, D, c, rx, ry, e0, st, m, k0, scale) ==
  LET round == kind \in {"circle", "ellipse"}
      circ == kind \in {"circle", "arc"}
      x == VScale(D[1], rx)
      y == VScale(D[2], IF circ THEN rx ELSE ry)
      t == IF round THEN Plain(U2(0, 1, 1), 4) ELSE st
      k == IF round THEN 4 ELSE m
  IN  [kind |-> kind, c |-> c, x |-> x, y |-> y, r |-> rx, dx |-> VScale(D[1], scale), dy |-> VScale(D[2], scale),
       e0 |-> IF round THEN U2(1, 0, 1) ELSE e0, step |-> t.step, h |-> t.h, m |-> k, k0 |-> k0, full |-> IsFull(t, k)]
GInit == phase = "new" /\ s = <<>>
GMake ==
  /\ phase = "new"
  /\ \E d \in {RndInt(2, 3, phase)} :
     \E kind \in {RndSeq(Kinds, phase)}, D \in {RndSeq(IF d = 2 THEN Dirs2 ELSE Dirs3, phase)},
        c \in {TLCEval([i \in 1..d |-> RndOf({RI(0), RI(3), RI(-10), RQ(7, 2), RI(100)}, phase)])},
        rx \in {RndSeq(Radii, phase)}, ry \in {RndSeq(Radii, phase)}, e0 \in {RndSeq(Starts, phase)}, st \in {RndSeq(Steps, phase)} :
     \E m \in {RndInt(1, st.n, phase)}, k0 \in {RndInt(-1, 1, phase)}, sc \in {RndOf({RI(1), RI(3), RQ(1, 7)}, phase)} :
        s' = Scenario(kind, D, c, rx, ry, e0, st, m, k0, sc)
  /\ phase' = "made"
(* the exact curve satisfies the specification *)
ExactInv ==
  (phase = "made" /\ s.h # <<>>) =>
     LET cv == ArcCurve(s, s.h)
         K == 6 * s.m
     IN  Valid(cv) /\ Sweep(s, [i \in 1..(K + 1) |-> Point(cv, RQ(i - 1, 6))]) = "ok"
GEmit == phase = "made" /\ PrintT(ToJson([m |-> "conic", s |-> s])) /\ phase' = "done" /\ UNCHANGED s
GNext == GMake \/ GEmit
=============================================================================

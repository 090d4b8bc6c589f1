------------------------------- MODULE Loops -------------------------------
(* Random simple closed plane curves: [c, o, kind], o a point they turn around *)
EXTENDS GenCurve, Plane
Dirs == << <<One, Zero>>, U2_(12, 5, 13), U2_(4, 3, 5), U2_(3, 4, 5), U2_(5, 12, 13), <<Zero, One>>, U2_(-5, 12, 13), U2_(-3, 4, 5), U2_(-4, 3, 5),
           U2_(-12, 5, 13), <<RI(-1), Zero>>, U2_(-12, -5, 13), U2_(-4, -3, 5), U2_(-3, -4, 5), U2_(-5, -12, 13), <<Zero, RI(-1)>>,
           U2_(5, -12, 13), U2_(3, -4, 5), U2_(4, -3, 5), U2_(12, -5, 13) >>
(* simple polygons that are not star shaped, or have level edges and vertices *)
Shapes == << << <<0, 0>>, <<6, 0>>, <<6, 2>>, <<2, 2>>, <<2, 6>>, <<0, 6>> >>,
             << <<0, 0>>, <<7, 0>>, <<7, 5>>, <<5, 5>>, <<5, 2>>, <<2, 2>>, <<2, 5>>, <<0, 5>> >>,
             << <<0, 0>>, <<8, 0>>, <<8, 4>>, <<7, 4>>, <<6, 1>>, <<5, 4>>, <<4, 1>>, <<3, 4>>, <<2, 1>>, <<1, 4>>, <<0, 4>> >>,
             << <<0, 0>>, <<9, 0>>, <<9, 9>>, <<2, 9>>, <<2, 4>>, <<6, 4>>, <<6, 6>>, <<4, 6>>, <<4, 7>>, <<7, 7>>, <<7, 2>>, <<0, 2>> >>,
             << <<0, 0>>, <<3, -3>>, <<6, 0>>, <<3, 3>> >>,
             << <<0, 0>>, <<4, 4>>, <<8, 0>>, <<4, 8>> >>,
             << <<0, 0>>, <<5, 0>>, <<5, 3>>, <<8, 3>>, <<8, 8>>, <<4, 8>>, <<4, 5>>, <<0, 5>> >> >>
RotL(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
Pick(s, st) ==      \* a random sub-sequence of the directions, a third of them or more
  LET k == RndInt(1, 3, st)
  IN  SelectSeq([i \in 1..Len(s) |-> <<RndInt(1, 6, st) <= k + 1, s[i]>>], LAMBDA x : x[1])
StarPts(o, sc, st) ==
  LET d == TLCEval(Pick(Dirs, st))
      P == TLCEval([i \in 1..Len(d) |-> VAdd(o, VScale(d[i][2], RMul(sc, RI(RndInt(2, 8, st)))))])
  IN  IF Len(P) < 3 THEN <<>> ELSE LET q == RotL(P, RndInt(0, Len(P) - 1, st)) IN IF RndInt(1, 2, st) = 1 THEN Rev(q) ELSE q
Weigh(P, st) == LET r == RndInt(1, 3, st) = 1 IN
  TLCEval([i \in 1..Len(P) |-> LET w == IF r THEN RndOf({One, RI(2), RQ(1, 2), RQ(3, 2)}, st) ELSE One IN VScale(At3(P[i]), w)])
PolyOf(P) == LET n == Len(P) IN
  [p |-> 1, U |-> <<Zero>> \o [i \in 1..(n + 1) |-> RI(i - 1)] \o <<RI(n)>>, P |-> [i \in 1..(n + 1) |-> At3(P[((i - 1) % n) + 1])]]
PeriodicOf(H, p, st) ==
  LET n == Len(H)
      s == TLCEval([i \in 1..n |-> IF RndInt(1, 3, st) = 1 THEN RndOf({RI(2), RQ(1, 2)}, st) ELSE One])
      un == RndInt(1, 2, st) = 1
  IN  [p |-> p, U |-> TLCEval(Acc(Zero, [i \in 1..(n + 2 * p) |-> IF un THEN One ELSE s[((i - 1) % n) + 1]], n + 2 * p)),
       P |-> [i \in 1..(n + p) |-> H[((i - 1) % n) + 1]]]
ClampedOf(H, p, st) ==
  LET n == Len(H) + 1 IN      \* n - p spans
  [p |-> p, U |-> Rep(Zero, p) \o [i \in 1..(n - p + 1) |-> RI(i - 1)] \o Rep(RI(n - p), p), P |-> H \o <<H[1]>>]
RndLoop(k, o, sc, st) ==
  IF k = "round" THEN
    LET f == RndSeq(<< <<<<One, Zero>>, <<Zero, One>>>>, <<U2_(3, 4, 5), U2_(-4, 3, 5)>>, <<U2_(0, -1, 1), U2_(-1, 0, 1)>>, <<U2_(5, 12, 13), U2_(-12, 5, 13)>> >>, st)
        r == RndInt(2, 8, st)
        q == IF RndInt(1, 2, st) = 1 THEN r ELSE RndInt(2, 8, st)
    IN  [kind |-> k, ok |-> TRUE, o |-> o, c |-> RoundOf(o, VScale(f[1], RMul(sc, RI(r))), VScale(f[2], RMul(sc, RI(q))), RndSeq(HalfTurns, st))]
  ELSE IF k = "shape" THEN
    LET z == RndSeq(Shapes, st)
        P == TLCEval([i \in 1..Len(z) |-> VAdd(o, VScale(<<RI(z[i][1] - 4), RI(z[i][2] - 4)>>, sc))])
        q == RotL(P, RndInt(0, Len(P) - 1, st))
    IN  [kind |-> k, ok |-> TRUE, o |-> o, c |-> PolyOf(IF RndInt(1, 2, st) = 1 THEN Rev(q) ELSE q)]
  ELSE LET P == StarPts(o, sc, st)
           p == RndInt(2, 3, st)
           none == [kind |-> k, ok |-> FALSE, o |-> o, c |-> NoOp]
       IN  IF Len(P) < 4 /\ ~(k = "star" /\ Len(P) = 3) THEN none
           ELSE LET c == CASE k = "star" -> PolyOf(P)
                           [] k = "periodic" -> PeriodicOf(Weigh(P, st), p, st)
                           [] OTHER -> ClampedOf(Weigh(P, st), p, st)
                IN  TLCEval([kind |-> k, ok |-> Around(c, o), o |-> o, c |-> c])
LoopKinds == <<"star", "star", "shape", "periodic", "periodic", "closed", "closed", "round">>
=============================================================================

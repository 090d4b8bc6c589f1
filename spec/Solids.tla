------------------------------ MODULE Solids ------------------------------
(* Random surfaces of known shape: graphs of splines, spheres, cones, tori *)
EXTENDS Pierce, Dirs, Rnd

RECURSIVE Climb(_, _, _)
Climb(x, steps, i) == IF i > Len(steps) THEN <<x>> ELSE <<x>> \o Climb(RAdd(x, steps[i]), steps, i + 1)
CKnots(p, k, st) ==
  LET B == Climb(RndOf({RI(-6), RI(-5), RQ(-9, 2)}, st), TLCEval([i \in 1..k |-> RQ(RndInt(6, 12, st), k)]), 1)
      m == TLCEval([i \in 1..k |-> IF RndInt(1, 3, st) = 1 THEN RndInt(1, p, st) ELSE 1])
  IN  Rep(B[1], p + 1) \o Cat([i \in 1..(k - 1) |-> Rep(B[i + 1], m[i])]) \o Rep(B[k + 1], p + 1)
RndGraph(deg, st) ==
  LET p == RndInt(1, deg, st)  q == RndInt(1, deg, st)  flat == RndInt(1, 5, st) = 1
      U == TLCEval(CKnots(p, RndInt(1, 2, st), st))  V == TLCEval(CKnots(q, RndInt(1, 3, st), st))
      F == TLCEval([i \in 1..(Len(U) - p - 1) |-> TLCEval([j \in 1..(Len(V) - q - 1) |-> IF flat THEN RI(1) ELSE RI(RndInt(-6, 6, st))])])
  IN  [kind |-> "graph", s |-> GraphOf(p, q, U, V, F)]
Unit2 == <<Zero, Zero>>
Circle(st) == RoundOf(Unit2, <<One, Zero>>, <<Zero, One>>, RndSeq(HalfTurns, st))
(* a half circle from the south to the north pole: unit directions by half steps *)
Meridian(R, st) ==
  LET D == RndOf({ << <<Zero, RI(-1)>>, <<RQ(4, 5), RQ(-3, 5)>>, <<RQ(4, 5), RQ(3, 5)>>, <<Zero, One>> >>,
                   << <<Zero, RI(-1)>>, <<RQ(3, 5), RQ(-4, 5)>>, <<RQ(24, 25), RQ(7, 25)>>, <<Zero, One>> >> }, st)
      n == Len(D)
      mid(i) == LET v == VAdd(D[i], D[i + 1]) IN VScale(v, RDiv(One, RAdd(One, VDot(D[i], D[i + 1]))))
      \* the cosine of the half step: scaled out, squared weights need not be rational
      h2(i) == RDiv(RAdd(One, VDot(D[i], D[i + 1])), RI(2))
      P(j) == IF j % 2 = 1 THEN At3(VScale(D[(j + 1) \div 2], R)) ELSE At3(VScale(mid(j \div 2), R))
  IN  [D |-> D, h |-> [i \in 1..(n - 1) |-> h2(i)], P |-> [j \in 1..(2 * n - 1) |-> P(j)]]
(* segments of a conic with weights (1, w, 1) and w^2 = h are those with      *)
(* (a, b, c) where b^2 = h*a*c: choose successive end weights                 *)
RECURSIVE Ends(_, _, _)
Ends(h, a, i) == IF i > Len(h) THEN <<a>> ELSE <<a>> \o Ends(h, RDiv(One, RMul(h[i], a)), i + 1)
(* with b = 1: c = 1/(h*a) *)
Arc(m) ==
  LET e == Ends(m.h, One, 1)  n == Len(e)
      w(j) == IF j % 2 = 1 THEN e[(j + 1) \div 2] ELSE One
  IN  [p |-> 2, U |-> <<Zero>> \o [k \in 1..(2 * n) |-> RI((k - 1) \div 2)] \o <<RI(n - 1)>>, P |-> [j \in 1..(2 * n - 1) |-> VScale(m.P[j], w(j))]]
RndBall(st) == LET R == RQ(RndInt(2, 14, st), 2) IN
  [kind |-> "ball", R |-> R, s |-> TLCEval(Spin(Circle(st), Arc(Meridian(R, st))))]
RndCone(st) ==
  LET R == RQ(RndInt(3, 10, st), 2)  l == RQ(RndInt(4, 18, st), 2)
      m == RDiv(RSub(RQ(RndInt(1, 10, st), 2), R), l)
      f == [p |-> 1, U |-> <<Zero, Zero, l, l>>, P |-> << <<R, Zero, One>>, <<RAdd(R, RMul(m, l)), l, One>> >>]
  IN  TLCEval([kind |-> "cone", R |-> R, m |-> m, l |-> l, s |-> Spin(Circle(st), f)])
RndTorus(st) ==
  LET R == RQ(RndInt(6, 14, st), 2)  r == RQ(RndInt(2, 5, st), 2) IN
  TLCEval([kind |-> "torus", R |-> R, r |-> r, s |-> Spin(Circle(st), RoundOf(<<R, Zero>>, <<r, Zero>>, <<Zero, r>>, RndSeq(HalfTurns, st)))])
=============================================================================

------------------------------- MODULE Conic -------------------------------
(***************************************************************************)
(* Circles, arcs, ellipses and elliptical arcs.  Angles are represented by   *)
(* rational points of the unit circle: a start direction e0 and a sweep of   *)
(* m equal steps, m * step <= one turn.                                      *)
(***************************************************************************)
EXTENDS Bspline, TLC
Mul2(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
RECURSIVE Turn(_, _, _)
Turn(e, step, m) == IF m = 0 THEN e ELSE Mul2(Turn(e, step, m - 1), step)
Cross2(a, b) == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
RAbs(x) == IF Lt(x, Zero) THEN RNeg(x) ELSE x
Tiny == RQ(1, 1000000)
Small(x) == Lt(RAbs(x), Tiny)

(* scenario: [c, x, y (effective axes), e0, step, m, full] *)
EndDir(s) == Turn(s.e0, s.step, s.m)
(* coordinates of a point along the axes, and what is left over *)
Local(s, p) == LET d == VSub(p, s.c) IN
   <<RDiv(VDot(d, s.x), VDot(s.x, s.x)), RDiv(VDot(d, s.y), VDot(s.y, s.y))>>
OffPlane(s, p, q) == LET r == VSub(VSub(p, s.c), VAdd(VScale(s.x, q[1]), VScale(s.y, q[2]))) IN VDot(r, r)
OnConic(s, p) == LET q == Local(s, p) IN
   /\ Small(RSub(VDot(q, q), One))
   /\ Small(RDiv(OffPlane(s, p, q), RAdd(VDot(s.x, s.x), VDot(s.y, s.y))))
Near2(a, b) == Small(RSub(a[1], b[1])) /\ Small(RSub(a[2], b[2]))

(* the successive points pts run along the conic from e0 to the end          *)
(* direction, always forwards and not more than the asked sweep              *)
Sweep(s, pts) ==
  LET n == Len(pts)
      q == TLCEval([i \in 1..n |-> Local(s, pts[i])])
      back == {i \in 2..(n - 1) : Lt(Cross2(s.e0, q[i]), Zero) /\ ~Lt(Cross2(s.e0, q[i + 1]), Zero) /\ ~(s.full /\ i + 1 = n)}
  IN  IF \E i \in 1..n : ~OnConic(s, pts[i]) THEN "a point is not on the conic"
      ELSE IF ~Near2(q[1], s.e0) THEN "does not start at the start angle"
      ELSE IF ~Near2(q[n], EndDir(s)) THEN "does not end at the end angle"
      ELSE IF \E i \in 1..(n - 1) : ~Lt(Zero, Cross2(q[i], q[i + 1])) THEN "does not advance"
      ELSE IF \E i \in back : Lt(Zero, VDot(s.e0, q[i])) /\ ~(i + 1 = n /\ Near2(q[n], s.e0)) THEN "passes its start again"
      ELSE IF s.full /\ ~\E i \in 1..n : Lt(Cross2(s.e0, q[i]), RQ(-1, 2)) THEN "does not make the full turn"
      ELSE "ok"

(* the conic as a rational quadratic spline, when the half step h (h*h = step) is rational *)
ArcCurve(s, h) ==
  LET at(e) == VAdd(s.c, VAdd(VScale(s.x, e[1]), VScale(s.y, e[2])))
      e(i) == Turn(s.e0, s.step, i)
      mid(i) == LET v == VAdd(e(i), e(i + 1)) IN VScale(v, RDiv(One, RAdd(One, VDot(e(i), e(i + 1)))))
      P(j) == IF j % 2 = 1 THEN at(e((j - 1) \div 2)) \o <<One>>
              ELSE LET x == at(mid((j - 2) \div 2)) IN VScale(x, h[1]) \o <<h[1]>>
      U == <<Zero>> \o [k \in 1..(2 * (s.m + 1)) |-> RI((k - 1) \div 2)] \o <<RI(s.m)>>
  IN  [p |-> 2, U |-> U, P |-> [j \in 1..(2 * s.m + 1) |-> P(j)]]
=============================================================================

------------------------------ MODULE Length ------------------------------
(***************************************************************************)
(* Arc length.  A curve comes with alen, its arc-length function sampled at  *)
(* parameters: a sequence of <<u, s>>, s the length travelled from the start *)
(* of the domain.  The samples are exact when the curve is made:             *)
(*   polylines (weighted or not) whose edges have rational lengths,          *)
(*   Pythagorean-hodograph cubic splines: hodograph w(t)^2 with w linear and *)
(*     complex, so the speed |w(t)|^2 is a polynomial,                       *)
(*   circular arcs: length proportional to the angle (unit: the half step).  *)
(* Operations never look at the curve to update them: knot insertion,        *)
(* elevation and clamping keep them, reversal mirrors them, splitting        *)
(* restricts and shifts them, a similarity scales them.                      *)
(***************************************************************************)
EXTENDS Curve, Rnd
VARIABLES alen, lens, unit
lvars == <<vars, alen, lens, unit>>

V2(a, b) == <<RI(a), RI(b)>>
CMul(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
CDot(a, b) == RAdd(RMul(a[1], b[1]), RMul(a[2], b[2]))
Fr == <<RI(0), RQ(1, 4), RQ(1, 2), RQ(3, 4)>>

-----------------------------------------------------------------------------
(* polylines: legs[k] = [d, l, w] direction (exact unit vector), length and weight of the next vertex *)
RECURSIVE Walk(_, _)
Walk(x0, legs) == IF Len(legs) = 0 THEN <<x0>> ELSE LET r == Walk(x0, SubSeq(legs, 1, Len(legs) - 1)) g == Last_(legs) IN
   Append(r, VAdd(Last_(r), VScale(g.d, g.l)))
RECURSIVE SumL(_, _)
SumL(legs, k) == IF k = 0 THEN Zero ELSE RAdd(SumL(legs, k - 1), legs[k].l)
PolyCurve(x0, w0, legs, B, out) ==      \* out: the two outer knots
  LET X == TLCEval(Walk(x0, legs))
      w(i) == IF i = 1 THEN w0 ELSE legs[i - 1].w
  IN  [p |-> 1, U |-> <<out[1]>> \o B \o <<out[2]>>, P |-> [i \in 1..Len(X) |-> VScale(X[i], w(i)) \o <<w(i)>>]]
PolyLen(w0, legs, B) ==
  LET n == Len(legs)
      w(i) == IF i = 1 THEN w0 ELSE legs[i - 1].w
      fr(i, t) == LET b == RMul(w(i + 1), t) a == RMul(w(i), RSub(One, t)) IN RDiv(b, RAdd(a, b))
      e(k) == LET i == ((k - 1) \div 4) + 1  t == Fr[((k - 1) % 4) + 1] IN
              <<RLerp(B[i], B[i + 1], t), RAdd(SumL(legs, i - 1), RMul(legs[i].l, fr(i, t)))>>
  IN  [k \in 1..(4 * n) |-> e(k)] \o << <<B[n + 1], SumL(legs, n)>> >>

-----------------------------------------------------------------------------
(* PH splines: segs[k] = [a, b]: w(t) = a (1-t) + b t over the k-th span *)
SegPts(x0, g) == LET p1 == VAdd(x0, VScale(CMul(g.a, g.a), RQ(1, 3)))
                     p2 == VAdd(p1, VScale(CMul(g.a, g.b), RQ(1, 3)))
                 IN  <<p1, p2, VAdd(p2, VScale(CMul(g.b, g.b), RQ(1, 3)))>>
RECURSIVE PHPts(_, _)
PHPts(x0, segs) == IF Len(segs) = 0 THEN <<x0>> ELSE LET r == PHPts(x0, SubSeq(segs, 1, Len(segs) - 1)) IN r \o SegPts(Last_(r), Last_(segs))
SegLen(g, t) ==    \* integral of |a + d t|^2
  LET d == VSub(g.b, g.a) t2 == RMul(t, t) IN
  RAdd(RAdd(RMul(CDot(g.a, g.a), t), RMul(CDot(g.a, d), t2)), RMul(RMul(CDot(d, d), RQ(1, 3)), RMul(t2, t)))
RECURSIVE PHSum(_, _)
PHSum(segs, k) == IF k = 0 THEN Zero ELSE RAdd(PHSum(segs, k - 1), SegLen(segs[k], One))
RECURSIVE Flat3(_)
Flat3(B) == IF Len(B) = 0 THEN <<>> ELSE Rep(B[1], 3) \o Flat3(Tail(B))
PHCurve(x0, segs, B) ==
  LET X == TLCEval(PHPts(x0, segs)) IN
  [p |-> 3, U |-> <<B[1]>> \o Flat3(B) \o <<Last_(B)>>, P |-> [i \in 1..Len(X) |-> X[i] \o <<One>>]]
PHLen(segs, B) ==
  LET n == Len(segs)
      e(k) == LET i == ((k - 1) \div 4) + 1  t == Fr[((k - 1) % 4) + 1] IN
              <<RLerp(B[i], B[i + 1], t), RAdd(PHSum(segs, i - 1), SegLen(segs[i], t))>>
  IN  [k \in 1..(4 * n) |-> e(k)] \o << <<B[n + 1], PHSum(segs, n)>> >>

-----------------------------------------------------------------------------
(* circular arcs of m equal steps; h (half a step) has rational coordinates *)
RECURSIVE TurnBy(_, _, _)
TurnBy(e, h, m) == IF m = 0 THEN e ELSE CMul(TurnBy(e, h, m - 1), h)
CircCurve(c, r, e0, h, m, B) ==
  LET at(i) == VAdd(c, VScale(TurnBy(e0, h, 2 * i), r))
      mid(i) == VAdd(c, VScale(TurnBy(e0, h, 2 * i + 1), RDiv(r, h[1])))
      P(j) == IF j % 2 = 1 THEN at((j - 1) \div 2) \o <<One>> ELSE VScale(mid((j - 2) \div 2), h[1]) \o <<h[1]>>
  IN  [p |-> 2, U |-> <<B[1]>> \o [k \in 1..(2 * (m + 1)) |-> B[((k - 1) \div 2) + 1]] \o <<B[m + 1]>>, P |-> [j \in 1..(2 * m + 1) |-> P(j)]]
CircLen(r, m, B) == [k \in 1..(2 * m + 1) |-> <<IF k % 2 = 1 THEN B[(k + 1) \div 2] ELSE Mid(B[k \div 2], B[(k \div 2) + 1]), RMul(r, RI(k - 1))>>]

-----------------------------------------------------------------------------
(* the same curve on a knot vector that is not clamped *)
Unclamp(c, k1, k2) ==   \* k1, k2: the distances of the outer knots
  LET lo == DomLo(c) hi == DomHi(c) p == c.p IN
  OnKnots(c, [i \in 1..p |-> RSub(lo, k1[p + 1 - i])] \o <<lo>> \o Inside(c.U, lo, hi) \o <<hi>> \o [i \in 1..p |-> RAdd(hi, k2[i])])

-----------------------------------------------------------------------------
(* the chord between two samples is not longer than the arc *)
ChordInv == (phase = "run" /\ unit = <<>>) => \A i \in 1..(Len(alen) - 1) :
   LET d == VSub(Point(cur, alen[i][1]), Point(cur, alen[i + 1][1])) s == RSub(alen[i + 1][2], alen[i][2]) IN
   /\ Lt(Zero, s) /\ Lt(alen[i][1], alen[i + 1][1]) /\ Le(VDot(d, d), RMul(s, s))
   /\ (cur.p = 1 => Eq(VDot(d, d), RMul(s, s)))
DomainInv == phase = "run" => Eq(alen[1][1], DomLo(cur)) /\ Eq(Last_(alen)[1], DomHi(cur)) /\ Eq(alen[1][2], Zero)

Sims(d) ==    \* similarities [M, k]
  LET I(k) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN k ELSE Zero]] IN
  {[M |-> I(RI(2)), k |-> RI(2)], [M |-> I(RQ(1, 1024)), k |-> RQ(1, 1024)], [M |-> I(RI(-1)), k |-> RI(1)], [M |-> I(RI(64)), k |-> RI(64)]} \cup
  (IF d = 2 THEN {[M |-> << <<RQ(3,5), RQ(-4,5)>>, <<RQ(4,5), RQ(3,5)>> >>, k |-> One]}
   ELSE {[M |-> << <<RQ(2,3), RQ(-1,3), RQ(2,3)>>, <<RQ(2,3), RQ(2,3), RQ(-1,3)>>, <<RQ(-1,3), RQ(2,3), RQ(2,3)>> >>, k |-> One]})

LenAt(l, u) == LET i == CHOOSE j \in 1..Len(l) : Eq(l[j][1], u) IN l[i][2]
Part(l, a, b) == LET q == KeepGhost(l, a, b) z == LenAt(l, a) IN [i \in 1..Len(q) |-> <<q[i][1], RSub(q[i][2], z)>>]
LArgs(op, c, l) ==
  LET inner == {i \in 1..Len(l) : InnerDom(c, l[i][1])} IN
  CASE op = "split" -> {[op |-> op, a |-> l[i][1], side |-> s] : i \in inner, s \in {1, 2}}
    [] op = "trim"  -> {[op |-> op, a |-> l[w[1]][1], b |-> l[w[2]][1]] : w \in {x \in (1..Len(l)) \X (1..Len(l)) : x[1] < x[2]}}
    [] op = "transform" -> {[op |-> op, M |-> s.M, k |-> s.k, t |-> t] : s \in Sims(Dim(c) - 1), t \in Shifts(Dim(c) - 1)}
    [] OTHER -> Args(op, c, FALSE)
LEffect(o, c, l) ==
  CASE o.op = "split" -> IF o.side = 1 THEN Part(l, DomLo(c), o.a) ELSE Part(l, o.a, DomHi(c))
    [] o.op = "trim" -> Part(l, o.a, o.b)
    [] o.op = "reverse" -> LET s == RAdd(c.U[1], Last_(c.U)) z == Last_(l)[2] IN Rev([i \in 1..Len(l) |-> <<RSub(s, l[i][1]), RSub(z, l[i][2])>>])
    [] o.op = "normalize" -> LET w == RSub(DomHi(c), DomLo(c)) IN [i \in 1..Len(l) |-> <<RDiv(RSub(l[i][1], DomLo(c)), w), l[i][2]>>]
    [] o.op = "transform" -> [i \in 1..Len(l) |-> <<l[i][1], RMul(o.k, l[i][2])>>]
    [] OTHER -> l
=============================================================================

------------------------------- MODULE Plane -------------------------------
(***************************************************************************)
(* Exact plane geometry of rational splines.                                *)
(*                                                                          *)
(* A piece of a curve of degree 1 or 2 has an implicit form: a form F on     *)
(* homogeneous coordinates that vanishes on the line or conic, and linear    *)
(* forms that are positive on the piece.  Substituting the Bezier pieces of  *)
(* any other curve into F gives polynomials in Bernstein form, whose roots   *)
(* are isolated by their coefficients: all of one sign, no root; monotone    *)
(* with ends of opposite sign, one root.  Where neither can be shown with    *)
(* the margins below, the pair is not in general position and is not used.   *)
(***************************************************************************)
EXTENDS Bspline, TLC

Binom == << <<1>>, <<1, 1>>, <<1, 2, 1>>, <<1, 3, 3, 1>>, <<1, 4, 6, 4, 1>>, <<1, 5, 10, 10, 5, 1>>, <<1, 6, 15, 20, 15, 6, 1>>,
            <<1, 7, 21, 35, 35, 21, 7, 1>>, <<1, 8, 28, 56, 70, 56, 28, 8, 1>>, <<1, 9, 36, 84, 126, 126, 84, 36, 9, 1>>,
            <<1, 10, 45, 120, 210, 252, 210, 120, 45, 10, 1>>, <<1, 11, 55, 165, 330, 462, 462, 330, 165, 55, 11, 1>>,
            <<1, 12, 66, 220, 495, 792, 924, 792, 495, 220, 66, 12, 1>> >>
C_(n, k) == Binom[n + 1][k + 1]
AbsR(x) == IF Lt(x, Zero) THEN RNeg(x) ELSE x
Sgn(x) == RCmp(x, Zero)
Cross2(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Max_(a, b) == IF a > b THEN a ELSE b
Min_(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Bernstein polynomials: sequences of coefficients *)
RECURSIVE Casteljau(_, _, _, _)
Casteljau(b, t, lft, rgt) ==
  LET n == Len(b)
      l == Append(lft, b[1])
      r == <<b[n]>> \o rgt
  IN  IF n = 1 THEN <<l, r>>
      ELSE Casteljau(VLerp(SubSeq(b, 1, n - 1), SubSeq(b, 2, n), t), t, l, r)
Split_(b, t) == Casteljau(b, t, <<>>, <<>>)
Half_ == RQ(1, 2)
AllAbove(b, d) == \A i \in 1..Len(b) : Lt(d, b[i])
AllBelow(b, d) == \A i \in 1..Len(b) : Lt(b[i], d)
Increasing(b) == \A i \in 1..(Len(b) - 1) : Lt(b[i], b[i + 1])
Decreasing(b) == \A i \in 1..(Len(b) - 1) : Lt(b[i + 1], b[i])
Monotone(b) == Increasing(b) \/ Decreasing(b)
RECURSIVE MulC(_, _, _, _)
(* coefficient k of the product of forms of degrees Len(x)-1 and Len(y)-1 *)
MulC(x, y, k, i) ==
  LET p == Len(x) - 1  q == Len(y) - 1 IN
  IF i > Min_(k, p) THEN Zero
  ELSE RAdd(RMul(RQ(C_(p, i) * C_(q, k - i), C_(p + q, k)), RMul(x[i + 1], y[k - i + 1])), MulC(x, y, k, i + 1))
BMul(x, y) == LET p == Len(x) - 1  q == Len(y) - 1 IN
  [k \in 1..(p + q + 1) |-> MulC(x, y, k - 1, Max_(0, k - 1 - q))]
BDiff(x) == LET p == Len(x) - 1 IN [i \in 1..p |-> RMul(RI(p), RSub(x[i + 1], x[i]))]

(* a root to about 2^-k of the interval: c0 and cn have opposite signs *)
RECURSIVE Narrow(_, _, _, _)
Narrow(b, s, t, k) ==
  IF k = 0 THEN <<s, t>>
  ELSE LET h == Split_(b, Half_)  m == RLerp(s, t, Half_)  z == Sgn(h[2][1]) IN
       IF z = 0 THEN <<m, m>>
       ELSE IF z = Sgn(b[1]) THEN Narrow(h[2], m, t, k - 1) ELSE Narrow(h[1], s, m, k - 1)
(* roots in [s, t]: [ok, r] with r a sequence of [lo, hi, at]: at = 0 inside, *)
(* otherwise the root is the right (1) or left (2) end of a monotone part and *)
(* sg is the sign on that side                                               *)
None_ == [ok |-> TRUE, r |-> <<>>]
Fail_ == [ok |-> FALSE, r |-> <<>>]
Both_(x, y) == IF x.ok /\ y.ok THEN [ok |-> TRUE, r |-> x.r \o y.r] ELSE Fail_
RECURSIVE Isolate(_, _, _, _, _)
Isolate(b, s, t, d, k) ==
  LET n == Len(b) IN
  IF AllAbove(b, d) \/ AllBelow(b, RNeg(d)) THEN None_
  ELSE IF Monotone(b) THEN
     LET a == Sgn(b[1])  z == Sgn(b[n]) IN
     IF a = 0 THEN [ok |-> TRUE, r |-> <<[lo |-> s, hi |-> s, at |-> 2, sg |-> z]>>]
     ELSE IF z = 0 THEN [ok |-> TRUE, r |-> <<[lo |-> t, hi |-> t, at |-> 1, sg |-> a]>>]
     ELSE IF a = z THEN None_
     ELSE LET w == Narrow(b, s, t, 26) IN [ok |-> TRUE, r |-> <<[lo |-> w[1], hi |-> w[2], at |-> 0, sg |-> z]>>]
  ELSE IF k = 0 THEN Fail_
  ELSE LET h == Split_(b, Half_)
           m == RLerp(s, t, Half_)
           x == Isolate(h[1], s, m, d, k - 1)
       IN  IF ~x.ok THEN x ELSE Both_(x, Isolate(h[2], m, t, d, k - 1))

-----------------------------------------------------------------------------
(* Forms on homogeneous plane coordinates (X, Y, W) *)
Apply_(l, h) == VDot(l, h)
(* the linear forms of the barycentric coordinates of the triangle a, b, c *)
LineForm(a, b) == <<RSub(a[2], b[2]), RSub(b[1], a[1]), RSub(RMul(a[1], b[2]), RMul(b[1], a[2]))>>
At3(p) == p \o <<One>>
Bary(a, b, c) ==
  LET D == VDot(LineForm(a, b), At3(c)) IN
  << VScale(LineForm(b, c), RDiv(One, D)), VScale(LineForm(c, a), RDiv(One, D)), VScale(LineForm(a, b), RDiv(One, D)) >>

(* pieces of a curve of degree 1 or 2 in implicit form *)
L1(v) == RAdd(AbsR(v[1]), AbsR(v[2]))
NoPiece == [deg |-> 1, ok |-> FALSE]
PieceOf(z, u0, u1) ==
  IF z.p = 1 THEN
    LET a == Dehom(z.P[1])  b == Dehom(z.P[2])  d == VSub(b, a)  q == VDot(d, d)
        s == VScale(<<d[1], d[2], RNeg(VDot(d, a))>>, RDiv(One, q))
    IN  IF Eq(q, Zero) THEN NoPiece ELSE
        [deg |-> 1, ok |-> TRUE, F |-> VScale(LineForm(a, b), RDiv(One, L1(d))),
         l |-> <<VSub(<<Zero, Zero, One>>, s), s>>, w |-> <<z.P[1][3], z.P[2][3]>>, u |-> <<u0, u1>>]
  ELSE
    LET a == Dehom(z.P[1])  b == Dehom(z.P[2])  c == Dehom(z.P[3])
        D == Cross2(VSub(b, a), VSub(c, a))
    IN  IF Le(AbsR(D), RQ(1, 4)) THEN NoPiece ELSE
        [deg |-> 2, ok |-> TRUE, F |-> <<>>, l |-> Bary(a, b, c),
         w |-> <<z.P[1][3], z.P[2][3], z.P[3][3]>>, u |-> <<u0, u1>>]
Pieces(c) == LET B == Breaks(c)  Z == Beziers(c) IN TLCEval([i \in 1..Len(Z) |-> PieceOf(Z[i], B[i], B[i + 1])])

(* the form of the piece along the Bezier curve z, in Bernstein form *)
Along(pc, z) ==
  IF pc.deg = 1 THEN [i \in 1..N(z) |-> Apply_(pc.F, z.P[i])]
  ELSE LET b(k) == [i \in 1..N(z) |-> Apply_(pc.l[k], z.P[i])]
           x == BMul(b(2), b(2))
           y == BMul(b(1), b(3))
       IN  VSub(VScale(x, RMul(pc.w[1], pc.w[3])), VScale(y, RMul(RI(4), RMul(pc.w[2], pc.w[2]))))
(* gradient of the form at the homogeneous point h *)
Grad(pc, h) ==
  IF pc.deg = 1 THEN <<pc.F[1], pc.F[2]>>
  ELSE LET v(k) == Apply_(pc.l[k], h)
           g(i) == RSub(RMul(RMul(RI(2), RMul(pc.w[1], pc.w[3])), RMul(v(2), pc.l[2][i])),
                        RMul(RMul(RI(4), RMul(pc.w[2], pc.w[2])), RAdd(RMul(v(1), pc.l[3][i]), RMul(v(3), pc.l[1][i]))))
       IN  <<g(1), g(2)>>
(* parameter on the piece of a point of it *)
ParamOn(pc, h) ==
  LET v(k) == RDiv(Apply_(pc.l[k], h), h[3])
      n == IF pc.deg = 1 THEN RMul(pc.w[1], v(2)) ELSE RMul(pc.w[1], v(2))
      m == IF pc.deg = 1 THEN RMul(pc.w[2], v(1)) ELSE RMul(RMul(RI(2), pc.w[2]), v(1))
  IN  RLerp(pc.u[1], pc.u[2], RDiv(n, RAdd(n, m)))

Delta == RQ(1, 400)      \* margin of the form away from crossings
Edge == RQ(1, 50)        \* margin of the position on a piece
Flat_ == RQ(1, 300)      \* least square of the sine of a crossing angle
Depth == 9
(* -1 off the piece, 1 on it, 0 too near its ends *)
Where(pc, h) ==
  LET v(k) == RDiv(Apply_(pc.l[k], h), h[3])
      I == 1..Len(pc.l)
  IN  IF \E k \in I : Lt(v(k), RNeg(Edge)) THEN -1
      ELSE IF pc.deg = 1 /\ (\A k \in I : Lt(Edge, v(k))) THEN 1
      \* near the ends of a conic piece the outer coordinate is quadratic in the parameter
      ELSE IF pc.deg = 2 /\ Lt(Zero, v(2)) /\ (\A k \in {1, 3} : Lt(RQ(1, 2500), v(k))) THEN 1
      ELSE 0
Transversal(pc, z, u) ==
  LET h == HEval(z, u)  d == Der1(z, u)  g == Grad(pc, h)  n == VDot(g, d) IN
  Lt(RMul(Flat_, RMul(VDot(g, g), VDot(d, d))), RMul(n, n))

(* events of a (its Bezier pieces Z over the breaks B) on one piece of b *)
RECURSIVE Events(_, _, _, _)
Events(pc, Z, B, i) ==
  IF i > Len(Z) THEN None_
  ELSE LET e == Isolate(Along(pc, Z[i]), B[i], B[i + 1], Delta, Depth) IN
       IF ~e.ok THEN e ELSE
       Both_([e EXCEPT !.r = [j \in 1..Len(e.r) |-> [lo |-> e.r[j].lo, hi |-> e.r[j].hi, at |-> e.r[j].at, sg |-> e.r[j].sg, z |-> i]]],
             Events(pc, Z, B, i + 1))
(* crossings of a with one piece of b *)
Hit(pc, Z, e) == LET u == RLerp(e.lo, e.hi, Half_)  h == HEval(Z[e.z], u) IN
   IF Where(pc, h) # 1 THEN [on |-> Where(pc, h)]
   ELSE [u |-> u, v |-> ParamOn(pc, h), x |-> Dehom(h), on |-> 1, tr |-> Transversal(pc, Z[e.z], u)]
RECURSIVE Merge_(_, _, _, _)
Merge_(pc, Z, E, i) ==
  IF i > Len(E) THEN None_
  ELSE LET e == E[i]  h == Hit(pc, Z, e) IN
    IF h.on = -1 THEN Merge_(pc, Z, E, i + 1)
    ELSE IF h.on = 0 \/ ~h.tr THEN Fail_
    ELSE IF e.at = 0 THEN LET r == Merge_(pc, Z, E, i + 1) IN [r EXCEPT !.r = <<h>> \o r.r]
    ELSE IF e.at = 1 /\ i < Len(E) /\ E[i + 1].at = 2 /\ Eq(E[i + 1].lo, e.hi) THEN
       \* through a knot (or a dividing point): a crossing if the sides differ
       IF e.sg # E[i + 1].sg /\ Transversal(pc, Z[E[i + 1].z], E[i + 1].lo) THEN LET r == Merge_(pc, Z, E, i + 2) IN [r EXCEPT !.r = <<h>> \o r.r]
       ELSE Fail_
    ELSE Fail_
(* the seam of a closed curve is an inner point: rotate its events to the end *)
Seam(E, lo, hi) ==
  IF Len(E) > 1 /\ E[1].at = 2 /\ E[Len(E)].at = 1 /\ Eq(E[1].lo, lo) /\ Eq(E[Len(E)].hi, hi)
  THEN SubSeq(E, 2, Len(E)) \o <<[E[1] EXCEPT !.lo = hi, !.hi = hi]>> ELSE E
ClosedAt(c) == VEq(Point(c, DomLo(c)), Point(c, DomHi(c)))
SeamHit(pc, Z, E, lo, hi) ==   \* as Merge_, the derivative after the seam being that at the start
  LET n == Len(E) IN
  IF n > 1 /\ E[1].at = 2 /\ E[n].at = 1 /\ Eq(E[1].lo, lo) /\ Eq(E[n].hi, hi) THEN
    LET x == Hit(pc, Z, E[n])  y == Hit(pc, Z, E[1]) IN
    IF x.on = -1 THEN Merge_(pc, Z, SubSeq(E, 2, n - 1), 1)
    ELSE IF x.on = 0 \/ y.on # 1 \/ ~x.tr \/ ~y.tr \/ E[1].sg = E[n].sg THEN Fail_
    ELSE LET r == Merge_(pc, Z, SubSeq(E, 2, n - 1), 1) IN [r EXCEPT !.r = <<x>> \o r.r]
  ELSE Merge_(pc, Z, E, 1)
(* an open curve must not end near the piece *)
EndClear(pc, a, u) ==
  LET h == HEval(a, u)
      f == IF pc.deg = 1 THEN RDiv(Apply_(pc.F, h), h[3])
           ELSE LET v(k) == RDiv(Apply_(pc.l[k], h), h[3]) IN
                RSub(RMul(RMul(pc.w[1], pc.w[3]), RMul(v(2), v(2))), RMul(RMul(RI(4), RMul(pc.w[2], pc.w[2])), RMul(v(1), v(3))))
  IN  Lt(RMul(Delta, RI(4)), AbsR(f)) \/ Where(pc, h) = -1
RECURSIVE CrossR(_, _, _, _, _)
CrossR(a, Z, B, P, i) ==
  IF i > Len(P) THEN None_
  ELSE LET pc == P[i]
           cl == ClosedAt(a)
       IN  IF ~pc.ok THEN Fail_ ELSE IF (~cl /\ ~(EndClear(pc, a, DomLo(a)) /\ EndClear(pc, a, DomHi(a)))) THEN Fail_
           ELSE LET e == Events(pc, Z, B, 1) IN
             IF ~e.ok THEN Fail_
             ELSE LET m == IF cl THEN SeamHit(pc, Z, e.r, DomLo(a), DomHi(a)) ELSE Merge_(pc, Z, e.r, 1) IN
                  IF ~m.ok THEN Fail_ ELSE Both_(m, CrossR(a, Z, B, P, i + 1))
(* the crossings of a with b (degree 1 or 2): [ok, r], r of [u, v, x, ..] *)
Cross(a, b) == TLCEval(CrossR(a, Beziers(a), Breaks(a), Pieces(b), 1))
(* crossings too close to each other to be told apart safely *)
Near_(c, u, v) ==
  LET w == RSub(DomHi(c), DomLo(c))  d == AbsR(RSub(u, v))  m == RMul(w, RQ(1, 60)) IN
  Lt(d, m) \/ (ClosedAt(c) /\ Lt(RSub(w, d), m))
Apart(a, b, r) == \A i, j \in 1..Len(r) : i < j => ~(Near_(a, r[i].u, r[j].u) /\ Near_(b, r[i].v, r[j].v))

-----------------------------------------------------------------------------
(* Inside of closed curves: the parity of crossings of a ray from q in       *)
(* direction d (the generic direction is chosen by the caller): 1 in, 0 out, *)
(* -1 not settled                                                            *)
RayPiece(q, d) ==
  [deg |-> 1, ok |-> TRUE, F |-> VScale(LineForm(q, VAdd(q, d)), RDiv(One, L1(d))),
   l |-> <<VScale(<<d[1], d[2], RNeg(VDot(d, q))>>, RDiv(One, L1(d)))>>, w |-> <<One, One>>, u |-> <<Zero, One>>]
WhereRay(pc, h) ==
  LET v == RDiv(Apply_(pc.l[1], h), h[3]) IN
  IF Lt(v, RNeg(Edge)) THEN -1 ELSE IF Lt(Edge, v) THEN 1 ELSE 0
HitRay(pc, Z, e) == WhereRay(pc, HEval(Z[e.z], RLerp(e.lo, e.hi, Half_)))
RECURSIVE Count(_, _, _, _, _)
Count(pc, Z, E, i, n) ==
  IF n < 0 THEN n
  ELSE IF i > Len(E) THEN n % 2
  ELSE LET on == HitRay(pc, Z, E[i]) IN
    IF on = -1 THEN Count(pc, Z, E, i + 1, n)
    ELSE IF on = 0 THEN -1
    ELSE IF E[i].at = 0 THEN Count(pc, Z, E, i + 1, n + 1)
    ELSE IF E[i].at = 1 /\ i < Len(E) /\ E[i + 1].at = 2 /\ Eq(E[i + 1].lo, E[i].hi) THEN
         Count(pc, Z, E, i + 2, IF E[i].sg # E[i + 1].sg THEN n + 1 ELSE n)
    ELSE -1
InsideD(Z, B, q, d) ==
  LET pc == RayPiece(q, d)  e == Events(pc, Z, B, 1) IN
  IF ~e.ok THEN -1 ELSE Count(pc, Z, Seam(e.r, B[1], B[Len(B)]), 1, 0)
(* the first direction that settles it *)
RECURSIVE InsideAny(_, _, _, _, _)
InsideAny(Z, B, q, D, i) ==
  IF i > Len(D) THEN -1
  ELSE LET r == InsideD(Z, B, q, D[i]) IN IF r >= 0 THEN r ELSE InsideAny(Z, B, q, D, i + 1)
Rays == << <<RI(5), RI(1)>>, <<RI(-2), RI(7)>>, <<RI(-3), RI(-4)>>, <<RI(7), RI(-6)>> >>
Within(c, q) == InsideAny(Beziers(c), Breaks(c), q, Rays, 1)

(* A sufficient condition for a closed curve to be simple: seen from o it    *)
(* turns always in the same sense, once.                                     *)
Shifted(h, o) == VSub(<<h[1], h[2]>>, VScale(o, h[3]))
TurnForm(z, o) ==
  LET X == [i \in 1..N(z) |-> Shifted(z.P[i], o)[1]]
      Y == [i \in 1..N(z) |-> Shifted(z.P[i], o)[2]]
  IN  VSub(BMul(X, BDiff(Y)), BMul(Y, BDiff(X)))
RECURSIVE SignOn(_, _)
SignOn(b, k) ==
  IF AllAbove(b, Zero) THEN 1 ELSE IF AllBelow(b, Zero) THEN -1
  ELSE IF k = 0 THEN 0
  ELSE LET h == Split_(b, Half_)  x == SignOn(h[1], k - 1) IN
       IF x = 0 THEN 0 ELSE IF SignOn(h[2], k - 1) = x THEN x ELSE 0
Around(c, o) ==
  LET Z == Beziers(c)
      s == SignOn(TurnForm(Z[1], o), 3)
      up == {i \in 1..Len(Z) : LET a == Shifted(Z[i].P[1], o)  b == Shifted(Z[i].P[N(Z[i])], o) IN
                                 (Lt(a[2], Zero) /\ Le(Zero, b[2])) \/ (Le(Zero, a[2]) /\ Lt(b[2], Zero))}
  IN  s # 0 /\ (\A i \in 2..Len(Z) : SignOn(TurnForm(Z[i], o), 3) = s) /\ Cardinality(up) = 2
-----------------------------------------------------------------------------
(* Full conics: circles and ellipses as closed rational quadratics through   *)
(* the directions g*g of the rational half directions g (half a turn)        *)
Mul2(a, b) == <<RSub(RMul(a[1], b[1]), RMul(a[2], b[2])), RAdd(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
RoundOf(c, x, y, g) ==
  LET n == Len(g)
      e(i) == Mul2(g[i], g[i])
      at(d) == VAdd(c, VAdd(VScale(x, d[1]), VScale(y, d[2])))
      h(i) == VDot(g[i], g[i + 1])                    \* cosine of the half step
      mid(i) == LET v == VAdd(e(i), e(i + 1)) IN VScale(v, RDiv(One, RMul(RI(2), RMul(h(i), h(i)))))
      P(j) == IF j % 2 = 1 THEN At3(at(e((j + 1) \div 2)))
              ELSE VScale(At3(at(mid(j \div 2))), h(j \div 2))
  IN  [p |-> 2, U |-> <<Zero>> \o [k \in 1..(2 * n) |-> RI((k - 1) \div 2)] \o <<RI(n - 1)>>, P |-> [j \in 1..(2 * n - 1) |-> P(j)]]
U2_(a, b, c) == <<RQ(a, c), RQ(b, c)>>
HalfTurns == << <<U2_(1, 0, 1), U2_(3, 4, 5), U2_(-3, 4, 5), U2_(-1, 0, 1)>>,
                <<U2_(1, 0, 1), U2_(4, 3, 5), U2_(0, 1, 1), U2_(-4, 3, 5), U2_(-1, 0, 1)>>,
                <<U2_(4, 3, 5), U2_(0, 1, 1), U2_(-3, 4, 5), U2_(-24, 7, 25), U2_(-4, -3, 5)>>,
                <<U2_(0, 1, 1), U2_(-4, 3, 5), U2_(-1, 0, 1), U2_(-4, -3, 5), U2_(-5, -12, 13), U2_(0, -1, 1)>> >>
=============================================================================

------------------------------ MODULE Polyline ------------------------------
(***************************************************************************)
(* Polylines standing for chains of curves.  ch is the sequence of curves,   *)
(* w the places of the vertices, pairs <<span, parameter>>; tol the tolerance *)
(* of flatness: a piece is flat, when (twice) the area of the triangle of its *)
(* ends and a point of it is less than tol (in space: the square of it).      *)
(*                                                                           *)
(* The pieces between the knots are halved until two points of a piece, the   *)
(* same way from its middle and chosen anew each time, are flat.  That holds  *)
(* the middle down, up to degree 3: the area is a polynomial divided by the   *)
(* weight, with zeroes at both ends, and its middle value is, up to a factor  *)
(* of at most 1.2, the mean of the two.  MCPolyline explores every choice.    *)
(***************************************************************************)
EXTENDS Bspline, TLC

Sq(v) == VDot(v, v)
Bend(a, x, b) ==    \* the square of twice the area
  LET u == VSub(x, a)  v == VSub(b, a)  d == VDot(u, v) IN RSub(RMul(Sq(u), Sq(v)), RMul(d, d))
FlatLim(dim, tol) == IF dim = 2 THEN RMul(tol, tol) ELSE tol
BentBy(a, x, b, tol) == \/ Le(FlatLim(Len(a), tol), Bend(a, x, b))
                        \/ Lt(Sq(VSub(a, b)), tol) /\ Lt(tol, Sq(VSub(x, a)))

Weights(c) == [i \in 1..N(c) |-> Last_(c.P[i])]
RECURSIVE Top_(_, _)
Top_(s, i) == IF i = 1 THEN s[1] ELSE LET r == Top_(s, i - 1) IN IF Lt(r, s[i]) THEN s[i] ELSE r
Spread(c) == LET W == Weights(c) IN RMul(Top_(W, Len(W)), Top_([i \in 1..Len(W) |-> RDiv(One, W[i])], Len(W)))
Small_ == RQ(1, 10000000)
Most_(c) == LET P == [i \in 1..N(c) |-> Sq(Dehom(c.P[i]))] IN RAdd(One, Top_(P, Len(P)))

(* the middle of an accepted piece [a, b] of a curve of spread r              *)
HeldDown(c, a, b, tol, r, e) ==
  LET p == Point(c, a)  q == Point(c, b)  x == Point(c, RLerp(a, b, RQ(1, 2)))  r2 == RMul(r, r) IN
  /\ Le(Bend(p, x, q), RAdd(e, RMul(FlatLim(Len(p), tol), RMul(r2, RQ(25, 16)))))
  /\ \/ Le(RMul(tol, RQ(999999, 1000000)), Sq(VSub(p, q)))
     \/ Le(Sq(VSub(x, p)), RAdd(e, RMul(RMul(RI(9), r2), tol)))

(* a piece within the tolerance as a whole: its control points are            *)
NetOf(c, a, b) == LET d == Restrict(c, a, b) IN [i \in 1..N(d) |-> Dehom(d.P[i])]
SurelyFlat(P, tol) ==
  LET n == Len(P)  t == RMul(tol, RQ(1, 2)) IN
  /\ \A i \in 1..n : Lt(Bend(P[1], P[i], P[n]), FlatLim(Len(P[1]), t))
  /\ \/ Lt(RMul(RI(2), tol), Sq(VSub(P[1], P[n])))
     \/ \A i \in 1..n : Lt(Sq(VSub(P[i], P[1])), t)
(* a straight curve running one way *)
Straight(c) ==
  LET P == TLCEval([i \in 1..N(c) |-> Dehom(c.P[i])])
      d == [i \in 1..(Len(P) - 1) |-> VSub(P[i + 1], P[i])] IN
  \A i \in 1..Len(d) : \A j \in 1..Len(d) : i < j => Eq(Bend(Rep(Zero, Len(P[1])), d[i], d[j]), Zero) /\ Le(Zero, VDot(d[i], d[j]))

-----------------------------------------------------------------------------
(* What a polyline must look like.  E = slack of the parameters *)
NearT(a, b, w) == LET d == RSub(a, b)  e == RMul(Small_, w) IN Lt(d, e) /\ Lt(RNeg(e), d)
Wide(c) == RSub(DomHi(c), DomLo(c))
IntoDom(c, t) == IF Lt(t, DomLo(c)) THEN DomLo(c) ELSE IF Lt(DomHi(c), t) THEN DomHi(c) ELSE t
At__(ch, q) == Point(ch[q[1]], IntoDom(ch[q[1]], q[2]))
(* the place as one in the span of the next vertex *)
From_(ch, q, s) == IF q[1] = s[1] THEN q ELSE <<s[1], DomLo(ch[s[1]])>>
Follows(ch, q, s) ==
  \/ q[1] = s[1] /\ Lt(q[2], s[2])
  \/ q[1] + 1 = s[1] /\ NearT(q[2], DomHi(ch[q[1]]), Wide(ch[q[1]])) /\ Lt(DomLo(ch[s[1]]), s[2])
InOrder(ch, w) ==
  /\ Len(w) > 1
  /\ w[1][1] = 1 /\ NearT(w[1][2], DomLo(ch[1]), Wide(ch[1]))
  /\ LET n == Len(ch) IN w[Len(w)][1] = n /\ NearT(w[Len(w)][2], DomHi(ch[n]), Wide(ch[n]))
  /\ \A i \in 1..(Len(w) - 1) : Follows(ch, w[i], w[i + 1])
KnotsKept(ch, w) == \A k \in 1..Len(ch) : LET B == Breaks(ch[k]) IN
  \A j \in 2..Len(B) : \E i \in 1..Len(w) : w[i][1] = k /\ NearT(w[i][2], B[j], Wide(ch[k]))
(* number of vertices in a span, its start not counted *)
InSpan(w, k, i) == Cardinality({j \in 2..i : w[j][1] = k})

RECURSIVE CellOf(_, _, _)
CellOf(B, x, i) == IF i + 1 = Len(B) \/ Lt(x, B[i + 1]) THEN i ELSE CellOf(B, x, i + 1)
(* [a, b] and [b, d] are the halves of a piece that halving between knots makes *)
Whole1(x) == LET d == RSub(x, RI(RFloor(RAdd(x, RQ(1, 2))))) IN Lt(d, RQ(1, 4096)) /\ Lt(RQ(-1, 4096), d)
Twins(c, a, b, d) ==
  LET B == Breaks(c)  m == RMul(RAdd(a, b), RQ(1, 2))  i == CellOf(B, m, 1)  h == RSub(b, a) IN
  /\ NearT(RSub(d, b), h, h)
  /\ Le(RSub(d, B[i + 1]), RMul(Small_, h))
  /\ Whole1(RDiv(RSub(a, B[i]), RMul(RI(2), h)))
(* twins of pieces that were flat as a whole *)
Needless(c, a, b, d, tol) == Twins(c, a, b, d) /\ SurelyFlat(NetOf(c, IntoDom(c, a), IntoDom(c, d)), tol)
=============================================================================

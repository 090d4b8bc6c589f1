----------------------------- MODULE Bspline -----------------------------
(***************************************************************************)
(* Rational B-spline curves, defined by polar forms (blossoms) over exact   *)
(* rationals.                                                               *)
(*                                                                          *)
(* A curve is a record [p, U, P]: degree p, knot sequence U (rationals,     *)
(* non-decreasing), homogeneous control points P (vectors whose last        *)
(* component is the weight, the others being weight * coordinate), with     *)
(* Len(U) = Len(P) + p + 1.  Its domain is [U[p+1], U[Len(P)+1]].           *)
(*                                                                          *)
(* The polar form is an independent definition of everything the library    *)
(* computes by index algorithms: points and derivatives (equal arguments),  *)
(* knot insertion, refinement, removal, splitting, clamping and Bezier      *)
(* decomposition (arguments = the knots of the new knot vector), and degree *)
(* elevation (symmetrised arguments).                                       *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

Zero == RI(0)
One  == RI(1)
Lt(a, b) == RCmp(a, b) < 0
Le(a, b) == RCmp(a, b) <= 0
Eq(a, b) == RCmp(a, b) = 0

N(c)   == Len(c.P)
Dim(c) == Len(c.P[1])
DomLo(c) == c.U[c.p + 1]
DomHi(c) == c.U[N(c) + 1]
InDom(c, u) == Le(DomLo(c), u) /\ Le(u, DomHi(c))
InnerDom(c, u) == Lt(DomLo(c), u) /\ Lt(u, DomHi(c))

Sorted(U) == \A i \in 1..(Len(U) - 1) : Le(U[i], U[i + 1])
(* number of occurrences of u in U *)
Mult(U, u) == Cardinality({i \in 1..Len(U) : Eq(U[i], u)})

(* structural validity, the invariant of every operation *)
Valid(c) ==
  /\ c.p >= 1 /\ N(c) > c.p
  /\ Len(c.U) = N(c) + c.p + 1
  /\ Sorted(c.U)
  /\ Lt(DomLo(c), DomHi(c))
  /\ \A i \in 1..N(c) : Len(c.P[i]) = Dim(c)
  /\ \A i \in 1..N(c) : Lt(Zero, c.P[i][Dim(c)])
  \* every control point matters: its basis function is not zero on the domain
  /\ \A i \in 1..N(c) : \E j \in i..(i + c.p) :
        Lt(c.U[j], c.U[j + 1]) /\ Le(DomLo(c), c.U[j]) /\ Le(c.U[j + 1], DomHi(c))

RECURSIVE SpanDown(_, _, _)
SpanDown(U, u, k) ==
  IF Le(U[k], u) /\ Lt(U[k], U[k + 1]) THEN k ELSE SpanDown(U, u, k - 1)
(* the non-empty knot span [U[k], U[k+1]] of the domain that contains u      *)
(* (the last one at the right end)                                           *)
Span(c, u) == SpanDown(c.U, u, N(c))
(* the span ending at or left of u, for left-hand limits *)
RECURSIVE SpanLeftR(_, _, _)
SpanLeftR(U, u, k) ==
  IF Lt(U[k], u) /\ Lt(U[k], U[k + 1]) THEN k ELSE SpanLeftR(U, u, k - 1)
SpanLeft(c, u) == SpanLeftR(c.U, u, N(c))

(* polar form of the polynomial piece over span k, at the p arguments args *)
RECURSIVE BlossomR(_, _, _, _, _)
BlossomR(c, k, args, pts, r) ==
  IF r > c.p THEN pts[1]
  ELSE BlossomR(c, k, args,
         [j \in 1..(c.p - r + 1) |->
            LET i == k - c.p + r + j - 1
            IN  VLerp(pts[j], pts[j + 1],
                      RDiv(RSub(args[r], c.U[i]), RSub(c.U[i + c.p - r + 1], c.U[i])))],
         r + 1)
Blossom(c, k, args) == BlossomR(c, k, args, [j \in 1..(c.p + 1) |-> c.P[k - c.p + j - 1]], 1)

Rep(x, m) == [i \in 1..m |-> x]

(* homogeneous value and homogeneous derivatives at u over span k *)
HEvalK(c, k, u) == Blossom(c, k, Rep(u, c.p))
HEval(c, u)     == HEvalK(c, Span(c, u), u)
HDer1K(c, k, u) ==
  VScale(VSub(Blossom(c, k, Rep(u, c.p - 1) \o <<RAdd(u, One)>>), HEvalK(c, k, u)), RI(c.p))
HDer2K(c, k, u) ==
  IF c.p < 2 THEN Rep(Zero, Dim(c))
  ELSE LET v == RAdd(u, One)
           a == Blossom(c, k, Rep(u, c.p - 2) \o <<v, v>>)
           b == Blossom(c, k, Rep(u, c.p - 2) \o <<u, v>>)
           d == HEvalK(c, k, u)
       IN  VScale(VAdd(VSub(a, VScale(b, RI(2))), d), RI(c.p * (c.p - 1)))

Head_(v) == SubSeq(v, 1, Len(v) - 1)
Last_(v) == v[Len(v)]
Dehom(h) == VScale(Head_(h), RDiv(One, Last_(h)))

(* Cartesian point and derivatives of the rational curve *)
PointK(c, k, u) == Dehom(HEvalK(c, k, u))
Point(c, u)     == Dehom(HEval(c, u))
Der1K(c, k, u) ==
  LET h0 == HEvalK(c, k, u)  h1 == HDer1K(c, k, u)
      x == Dehom(h0)
  IN  VScale(VSub(Head_(h1), VScale(x, Last_(h1))), RDiv(One, Last_(h0)))
Der2K(c, k, u) ==
  LET h0 == HEvalK(c, k, u)  h1 == HDer1K(c, k, u)  h2 == HDer2K(c, k, u)
      x == Dehom(h0)  x1 == Der1K(c, k, u)
  IN  VScale(VSub(VSub(Head_(h2), VScale(x1, RMul(RI(2), Last_(h1)))), VScale(x, Last_(h2))),
             RDiv(One, Last_(h0)))
Der1(c, u) == Der1K(c, Span(c, u), u)
Der2(c, u) == Der2K(c, Span(c, u), u)

-----------------------------------------------------------------------------
(* Knot sequences *)
RECURSIVE InsertSorted(_, _)
InsertSorted(U, u) ==
  IF Len(U) = 0 THEN <<u>>
  ELSE IF Le(U[Len(U)], u) THEN Append(U, u)
  ELSE Append(InsertSorted(SubSeq(U, 1, Len(U) - 1), u), U[Len(U)])
RECURSIVE Merge(_, _)
Merge(U, us) == IF Len(us) = 0 THEN U ELSE Merge(InsertSorted(U, us[1]), Tail(us))
RECURSIVE RemoveOne(_, _)
RemoveOne(U, u) ==
  IF Len(U) = 0 THEN U
  ELSE IF Eq(U[1], u) THEN Tail(U) ELSE <<U[1]>> \o RemoveOne(Tail(U), u)
RECURSIVE Distinct(_)
Distinct(U) ==
  IF Len(U) <= 1 THEN U
  ELSE LET r == Distinct(SubSeq(U, 1, Len(U) - 1))
       IN  IF Eq(Last_(r), Last_(U)) THEN r ELSE Append(r, Last_(U))
(* every value of U repeated t more times *)
RaiseAll(U, t) == LET D == Distinct(U) IN
  Merge(U, [i \in 1..(Len(D) * t) |-> D[((i - 1) \div t) + 1]])

(* index of a non-empty span of V among i..i+p that lies in c's domain *)
NonEmptySpan(c, V, i, q) ==
  CHOOSE j \in i..(i + q) :
     /\ j + 1 <= Len(V) /\ Lt(V[j], V[j + 1])
     /\ Le(DomLo(c), V[j]) /\ Le(V[j + 1], DomHi(c))
HasSpan(c, V, i, q) ==
  \E j \in i..(i + q) :
     /\ j + 1 <= Len(V) /\ Lt(V[j], V[j + 1])
     /\ Le(DomLo(c), V[j]) /\ Le(V[j + 1], DomHi(c))

(* control points of c on another knot vector V of the same degree whose     *)
(* spline space contains c (a refinement, or a coarsening after CanRemove)   *)
OnKnots(c, V) ==
  [c EXCEPT !.U = V,
            !.P = [i \in 1..(Len(V) - c.p - 1) |->
                     LET j == NonEmptySpan(c, V, i, c.p)
                     IN  Blossom(c, Span(c, V[j]), [a \in 1..c.p |-> V[i + a]])]]

Refine(c, us) == OnKnots(c, Merge(c.U, us))

(* the two polynomial pieces meeting at the interior knot u agree so well    *)
(* that m occurrences of u can be taken out: C^(p-s+m) at u                  *)
JoinOrder(c, u, q) ==
  LET l == SpanLeft(c, u)  r == Span(c, u)
      v == RAdd(u, One)
      \* q+1 affinely independent argument tuples with p-q copies of u
      arg(m) == Rep(u, c.p - m) \o Rep(v, m)
  IN  \A m \in 0..q : VEq(Blossom(c, l, arg(m)), Blossom(c, r, arg(m)))
CanRemove(c, u, m) ==
  LET s == Mult(c.U, u) IN m <= s /\ JoinOrder(c, u, c.p - s + m)
Removable(c, u) ==
  LET s == Mult(c.U, u) IN
  CHOOSE m \in 0..s : CanRemove(c, u, m) /\ \A x \in (m + 1)..s : ~CanRemove(c, u, x)
RECURSIVE RemoveTimes(_, _, _)
RemoveTimes(U, u, m) == IF m = 0 THEN U ELSE RemoveTimes(RemoveOne(U, u), u, m - 1)
Remove(c, u, m) == OnKnots(c, RemoveTimes(c.U, u, m))

(* degree elevation by t: the polar form of degree p+t is the mean of the    *)
(* polar form of degree p over all p-element sub-bags of the arguments       *)
RECURSIVE SubSeqs(_, _)
SubSeqs(s, m) ==     \* the sequence of all m-element subsequences of s
  IF m = 0 THEN << <<>> >>
  ELSE IF Len(s) < m THEN <<>>
  ELSE LET h == s[1]  w == SubSeqs(Tail(s), m - 1)
       IN  [i \in 1..Len(w) |-> <<h>> \o w[i]] \o SubSeqs(Tail(s), m)
RECURSIVE VSum(_)
VSum(ss) == IF Len(ss) = 1 THEN ss[1] ELSE VAdd(ss[1], VSum(Tail(ss)))
ElevBlossom(c, k, args) ==
  LET ss == SubSeqs(args, c.p)
  IN  VScale(VSum([i \in 1..Len(ss) |-> Blossom(c, k, ss[i])]), RQ(1, Len(ss)))
Elevate(c, t) ==
  LET V == RaiseAll(c.U, t)
      q == c.p + t
  IN  [c EXCEPT !.p = q, !.U = V,
                !.P = [i \in 1..(Len(V) - q - 1) |->
                        LET j == NonEmptySpan(c, V, i, q)
                        IN  ElevBlossom(c, Span(c, V[j]), [a \in 1..q |-> V[i + a]])]]

-----------------------------------------------------------------------------
(* Sub-curves.  Restrict(c, a, b) is the clamped curve over [a, b]: end knots *)
(* of multiplicity p+1, interior knots those of c strictly inside.            *)
Inside(U, a, b) == SelectSeq(U, LAMBDA x : Lt(a, x) /\ Lt(x, b))
Restrict(c, a, b) ==
  LET V == Rep(a, c.p + 1) \o Inside(c.U, a, b) \o Rep(b, c.p + 1)
  IN  OnKnots(c, V)
Clamp(c) == Restrict(c, DomLo(c), DomHi(c))
IsClamped(c) ==
  /\ \A i \in 1..(c.p + 1) : Eq(c.U[i], c.U[1])
  /\ \A i \in (Len(c.U) - c.p)..Len(c.U) : Eq(c.U[i], Last_(c.U))
Breaks(c) == Distinct(SelectSeq(c.U, LAMBDA x : InDom(c, x)))
Beziers(c) == LET B == Breaks(c) IN [i \in 1..(Len(B) - 1) |-> Restrict(c, B[i], B[i + 1])]

(* Re-parametrisations and re-embeddings *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Reverse(c) ==     \* u |-> first + last - u
  LET s == RAdd(c.U[1], Last_(c.U))
  IN  [c EXCEPT !.U = [i \in 1..Len(c.U) |-> RSub(s, c.U[Len(c.U) + 1 - i])], !.P = Rev(c.P)]
AffineKnots(c, f, g) ==    \* u |-> f*u + g
  [c EXCEPT !.U = [i \in 1..Len(c.U) |-> RAdd(RMul(f, c.U[i]), g)]]
Normalize(c) ==
  LET w == RSub(DomHi(c), DomLo(c))
  IN  AffineKnots(c, RDiv(One, w), RNeg(RDiv(DomLo(c), w)))
Lift(c) == [c EXCEPT !.P = [i \in 1..N(c) |-> Head_(c.P[i]) \o <<Zero, Last_(c.P[i])>>]]
(* affine map: M a matrix (sequence of rows) of the linear part, t the translation *)
MulM(M, x) == [i \in 1..Len(M) |-> VDot(M[i], x)]
MapH(M, t, h) == VAdd(MulM(M, Head_(h)), VScale(t, Last_(h))) \o <<Last_(h)>>
MapP(M, t, x) == VAdd(MulM(M, x), t)
Transform(c, M, t) == [c EXCEPT !.P = [i \in 1..N(c) |-> MapH(M, t, c.P[i])]]
=============================================================================

-------------------------------- MODULE Boxes --------------------------------
(* Axis-aligned boxes as sets of points, and triangle meshes.  A box is       *)
(* [lo, hi]; the box of no points has lo = hi = <<>>.                         *)
EXTENDS Bspline
Lower(a, b) == IF Lt(b, a) THEN b ELSE a
Upper(a, b) == IF Lt(a, b) THEN b ELSE a
Void == [lo |-> <<>>, hi |-> <<>>]
IsVoid(b) == Len(b.lo) = 0
RECURSIVE Hull_(_, _)
Hull_(P, n) ==
  IF n = 1 THEN [lo |-> P[1], hi |-> P[1]]
  ELSE LET b == Hull_(P, n - 1) IN
       [lo |-> [k \in 1..Len(P[1]) |-> Lower(b.lo[k], P[n][k])], hi |-> [k \in 1..Len(P[1]) |-> Upper(b.hi[k], P[n][k])]]
BoxAround(P) == IF Len(P) = 0 THEN Void ELSE Hull_(P, Len(P))
Holds_(b, x) == ~IsVoid(b) /\ \A k \in 1..Len(b.lo) : Le(b.lo[k], x[k]) /\ Le(x[k], b.hi[k])
(* how far two boxes are apart along the coordinate where they are farthest   *)
RECURSIVE GapR(_, _, _)
GapR(a, b, k) ==
  LET g == Upper(RSub(b.lo[k], a.hi[k]), RSub(a.lo[k], b.hi[k])) IN IF k = 1 THEN g ELSE Upper(g, GapR(a, b, k - 1))
GapOf(a, b) == GapR(a, b, Len(a.lo))
Meets(a, b, tol) == ~IsVoid(a) /\ ~IsVoid(b) /\ Le(GapOf(a, b), tol)
(* the corners: bit k-1 of i chooses the end of coordinate k                  *)
RECURSIVE TwoTo(_)
TwoTo(d) == IF d = 0 THEN 1 ELSE 2 * TwoTo(d - 1)
Bit(i, k) == (i \div TwoTo(k - 1)) % 2
Corner(b, i) == [k \in 1..Len(b.lo) |-> IF Bit(i, k) = 0 THEN b.lo[k] ELSE b.hi[k]]
CornersOf(b) == [i \in 1..TwoTo(Len(b.lo)) |-> Corner(b, i - 1)]
RECURSIVE EdgesR(_, _, _)
EdgesR(b, i, k) ==
  IF i = TwoTo(Len(b.lo)) THEN <<>>
  ELSE IF k > Len(b.lo) THEN EdgesR(b, i + 1, 1)
  ELSE (IF Bit(i, k) = 0 THEN << <<Corner(b, i), Corner(b, i + TwoTo(k - 1))>> >> ELSE <<>>) \o EdgesR(b, i, k + 1)
EdgesOf(b) == EdgesR(b, 0, 1)
SizeOf(b) == VSub(b.hi, b.lo)
Centre(b) == VScale(VAdd(b.lo, b.hi), RQ(1, 2))
Grown(b, e) == [lo |-> [k \in 1..Len(b.lo) |-> RSub(b.lo[k], e)], hi |-> [k \in 1..Len(b.lo) |-> RAdd(b.hi[k], e)]]
(* the first box inside the second                                            *)
Inner(a, b) == Holds_(b, a.lo) /\ Holds_(b, a.hi)
Net(c) == [i \in 1..N(c) |-> Dehom(c.P[i])]

(* Areas of triangles in a plane, given by plane coordinates                  *)
Det2(a, b, c) == LET x == VSub(b, a)  y == VSub(c, a) IN RSub(RMul(x[1], y[2]), RMul(x[2], y[1]))
TriArea(a, b, c) == LET d == RMul(RQ(1, 2), Det2(a, b, c)) IN IF Lt(d, Zero) THEN RNeg(d) ELSE d
RECURSIVE AreaR(_, _, _)
AreaR(V, F, i) == IF i = 0 THEN Zero ELSE RAdd(AreaR(V, F, i - 1), TriArea(V[F[i][1] + 1], V[F[i][2] + 1], V[F[i][3] + 1]))
MeshArea(V, F) == AreaR(V, F, Len(F))
RECURSIVE SumOf(_, _)
SumOf(s, i) == IF i = 0 THEN Zero ELSE RAdd(SumOf(s, i - 1), s[i])
=============================================================================

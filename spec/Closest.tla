------------------------------ MODULE Closest ------------------------------
(***************************************************************************)
(* Nearest points.  Near2(c, q, us) is the least squared distance from q to  *)
(* the curve's points at the parameters us: nothing the search returns may   *)
(* be farther.  For polylines Poly2 is the exact least squared distance.     *)
(***************************************************************************)
EXTENDS Curve, Rnd
Dist2(a, b) == LET d == VSub(a, b) IN VDot(d, d)
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE LET r == MinOf(Tail(s)) IN IF Lt(s[1], r) THEN s[1] ELSE r
RECURSIVE Grid(_, _, _)
Grid(B, k, i) == IF i >= Len(B) THEN <<B[Len(B)]>>
                 ELSE [j \in 1..k |-> RLerp(B[i], B[i + 1], RQ(j - 1, k))] \o Grid(B, k, i + 1)
(* squared distance of q to the segment ab *)
Seg2(q, a, b) ==
  LET d == VSub(b, a)  l == VDot(d, d)  t == VDot(VSub(q, a), d) IN
  IF Eq(l, Zero) \/ Le(t, Zero) THEN Dist2(q, a)
  ELSE IF Le(l, t) THEN Dist2(q, b)
  ELSE RSub(Dist2(q, a), RDiv(RMul(t, t), l))
Poly2(c, q) == LET B == Breaks(c) IN MinOf([i \in 1..(Len(B) - 1) |-> Seg2(q, Point(c, B[i]), Point(c, B[i + 1]))])
Near2(c, q, us) == MinOf([i \in 1..Len(us) |-> Dist2(q, Point(c, us[i]))])

(* a direction perpendicular to v *)
Perp(v) == IF Len(v) = 2 THEN <<RNeg(v[2]), v[1]>>
           ELSE IF Eq(v[1], Zero) /\ Eq(v[2], Zero) THEN <<One, Zero, Zero>> ELSE <<RNeg(v[2]), v[1], Zero>>
=============================================================================

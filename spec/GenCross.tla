----------------------------- MODULE GenCross -----------------------------
(* Pairs of plane curves in general position with all their crossings *)
EXTENDS GenCurve, Plane, Zoom
VARIABLES other, res
xvars == <<vars, shape, other, res>>
Kinds == <<"spline", "spline", "spline", "through", "through", "polyline", "polyline", "round", "round", "apart">>
Small_(sh) == [sh EXCEPT !.p = Min_(sh.p, 2), !.dim = 2, !.mults = [i \in 1..Len(sh.mults) |-> Min_(sh.mults[i], Min_(sh.p, 2))]]
RndSpline(sh, st) ==
  LET U == KnotsOf(sh)
      n == Len(U) - sh.p - 1
      P == TLCEval([i \in 1..n |-> RndPt(sh, st)])
  IN  [p |-> sh.p, U |-> U, P |-> IF sh.closed /\ sh.clamped /\ n > 2 THEN [P EXCEPT ![n] = P[1]] ELSE P]
PolyKnots(n) == <<Zero>> \o [i \in 1..n |-> RI(i - 1)] \o <<RI(n - 1)>>
RndPoly(st) ==
  LET n == RndInt(3, 7, st)
      cl == RndInt(1, 2, st) = 1
      P == TLCEval([i \in 1..n |-> <<RQ(RndInt(-20, 20, st), 2), RQ(RndInt(-20, 20, st), 2), One>>])
  IN  [p |-> 1, U |-> PolyKnots(n), P |-> IF cl THEN [P EXCEPT ![n] = P[1]] ELSE P]
Frames == << <<<<One, Zero>>, <<Zero, One>>>>, <<U2_(3, 4, 5), U2_(-4, 3, 5)>>, <<U2_(0, -1, 1), U2_(-1, 0, 1)>>, <<U2_(5, 12, 13), U2_(-12, 5, 13)>> >>
RndRound(st) ==
  LET f == RndSeq(Frames, st)
      r == RndInt(2, 14, st)
      q == IF RndInt(1, 2, st) = 1 THEN r ELSE RndInt(2, 14, st)
      c == <<RQ(RndInt(-12, 12, st), 2), RQ(RndInt(-12, 12, st), 2)>>
  IN  TLCEval(RoundOf(c, VScale(f[1], RQ(r, 2)), VScale(f[2], RQ(q, 2)), RndSeq(HalfTurns, st)))
(* a segment through the curve's point at a break, the seam or a mid point *)
RndThrough(c, st) ==
  LET u == RndSeq(Cands(c) \o Breaks(c), st)
      x == Point(c, u)
      d == <<RI(RndInt(-5, 5, st)), RI(RndInt(1, 5, st))>>
      k == RQ(RndInt(1, 9, st), 4)
      l == RQ(RndInt(1, 9, st), 4)
  IN  TLCEval([p |-> 1, U |-> PolyKnots(2), P |-> <<At3(VSub(x, VScale(d, k))), At3(VAdd(x, VScale(d, l)))>>])
Id2_ == << <<One, Zero>>, <<Zero, One>> >>
Far(c, st) == Transform(c, Id2_, <<RI(RndSeq(<<-60, 45, 70>>, st)), RI(RndInt(-9, 9, st))>>)
MkOther(k, sh, st) ==
  CASE k = "spline" -> RndSpline(sh, st)
    [] k = "polyline" -> RndPoly(st)
    [] k = "round" -> RndRound(st)
    [] k = "through" -> RndThrough(cur, st)
    [] OTHER -> LET z == RndInt(1, 3, st) IN Far(IF z = 1 THEN RndSpline(sh, st) ELSE IF z = 2 THEN RndPoly(st) ELSE RndRound(st), st)
VOps == <<"none", "none", "insert", "refine", "elevate">>

XInit == GInit /\ other = NoOp /\ res = NoOp
XShape == phase = "new" /\ shape = NoOp /\ shape' = [RndShape(phase) EXCEPT !.dim = 2] /\ UNCHANGED <<vars, other, res>>
(* some curves are closed conics or polylines *)
XCreate ==
  /\ phase = "new" /\ shape # NoOp
  /\ \E k \in {RndInt(1, 6, phase)}, rs \in {RndInts(3, phase)} :
     \E c \in {IF k = 1 THEN RndRound(phase) ELSE IF k = 2 THEN RndPoly(phase) ELSE RndSpline(shape, phase)} : Create(c, rs)
  /\ UNCHANGED <<shape, other, res>>
XOther ==
  /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1 /\ other = NoOp
  /\ \E k \in {RndSeq(Kinds, hist)}, sh \in {Small_(RndShape(hist))}, v \in {RndSeq(VOps, hist)} :
     \E b \in {MkOther(k, sh, hist)} :
     \E A \in {IF (v = "none" \/ ~Valid(b)) = TRUE THEN {} ELSE Args(v, b, TRUE)} :
        other' = [kind |-> k, ok |-> Valid(b), b |-> b, vop |-> IF A = {} THEN "none" ELSE v,
                  show |-> IF A = {} THEN b ELSE Effect(RndOf(A, hist), b, <<>>, TRUE).c]
  /\ UNCHANGED <<vars, shape, res>>
XSolve ==
  /\ phase = "run" /\ other # NoOp /\ res = NoOp
  /\ res' = IF other.ok THEN Cross(cur, other.b) ELSE Fail_
  /\ UNCHANGED <<vars, shape, other>>
Good == res.ok /\ Apart(cur, other.b, res.r)
(* every crossing lies on both curves: the parameter on the second is read *)
(* from barycentric coordinates, where it can be a thousand times less sharp *)
CrossInv == res # NoOp => \A i \in 1..Len(res.r) :
  LET d == VSub(Point(other.show, res.r[i].v), res.r[i].x) IN Lt(VDot(d, d), RQ(1, 100000))
(* both ways round the same crossings *)
BothInv == (res # NoOp /\ other.kind # "apart" /\ Good /\ cur.p <= 2) =>
  LET s == Cross(other.b, cur) IN s.ok => Len(s.r) = Len(res.r)
FarInv == (res # NoOp /\ other.kind = "apart" /\ res.ok) => res.r = <<>>
XEmit ==
  /\ phase = "run" /\ res # NoOp
  /\ Good = TRUE => \E z \in {TLCEval(RndZoom(hist))} : PrintT(ToJson([m |-> "cross", a |-> ZoomC(cur, z.g, z.fa), b |-> ZoomC(other.show, z.g, z.fb),
        kind |-> other.kind, vop |-> other.vop, zoom |-> z,
        closed |-> <<ClosedAt(cur), ClosedAt(other.b)>>, cuts |-> ZoomU(InnerCands(cur), z.fa),
        x |-> [i \in 1..Len(res.r) |-> [u |-> RMul(z.fa, res.r[i].u), v |-> RMul(z.fb, res.r[i].v), x |-> VScale(res.r[i].x, z.g)]]]))
  /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, other, res>>
XNext == XShape \/ XCreate \/ ((GChoose \/ GApply) /\ UNCHANGED <<other, res>>) \/ XOther \/ XSolve \/ XEmit
=============================================================================

------------------------------- MODULE Region -------------------------------
(***************************************************************************)
(* Plane regions and set operations on them.                                *)
(*                                                                          *)
(* A loop is a simple closed curve with its Bezier pieces, a region an       *)
(* exterior loop with hole loops inside it.  The state of a chain of set     *)
(* operations is the set of points it covers, represented by its             *)
(* characteristic function on probe points: a boolean operation acts on it   *)
(* as the set operation, whatever the curves are like.                       *)
(***************************************************************************)
EXTENDS Loops
RECURSIVE Least(_, _)
Least(s, i) == IF i = Len(s) THEN s[i] ELSE LET m == Least(s, i + 1) IN IF Lt(s[i], m) THEN s[i] ELSE m
Coord(c, k) == [i \in 1..N(c) |-> Dehom(c.P[i])[k]]
Negs(s) == [i \in 1..Len(s) |-> RNeg(s[i])]
(* bounds of the control points, and so of the curve *)
BoxOf(c) == << Least(Coord(c, 1), 1), RNeg(Least(Negs(Coord(c, 1)), 1)), Least(Coord(c, 2), 1), RNeg(Least(Negs(Coord(c, 2)), 1)) >>
OutOf(b, q) == Lt(q[1], b[1]) \/ Lt(b[2], q[1]) \/ Lt(q[2], b[3]) \/ Lt(b[4], q[2])
LoopOf(l) == TLCEval([c |-> l.c, o |-> l.o, kind |-> l.kind, Z |-> Beziers(l.c), B |-> Breaks(l.c), box |-> BoxOf(l.c)])
InLoop(l, q) == IF OutOf(l.box, q) THEN 0 ELSE InsideAny(l.Z, l.B, q, Rays, 1)
InRegion(r, q) ==
  LET e == InLoop(r.ext, q)
      h == TLCEval([i \in 1..Len(r.holes) |-> InLoop(r.holes[i], q)])
  IN  IF e = 0 THEN 0
      ELSE IF e = -1 \/ (\E i \in 1..Len(h) : h[i] = -1) THEN -1
      ELSE IF \A i \in 1..Len(h) : h[i] = 0 THEN 1 ELSE 0
LoopsOf(r) == <<r.ext>> \o r.holes
(* a point's fate under an operation; -1 is unknown *)
SetOp(op, a, b) ==
  IF a = -1 \/ b = -1 THEN -1
  ELSE CASE op = "union" -> Max_(a, b) [] op = "intersection" -> Min_(a, b) [] OTHER -> IF a = 1 /\ b = 0 THEN 1 ELSE 0
(* crossings of two loops, y of degree 1 or 2: fine is FALSE unless they are  *)
(* in general position                                                       *)
LoopCross(x, y) == LET k == Cross(x.c, y.c) IN
  [fine |-> k.ok /\ Apart(x.c, y.c, k.r) /\ ~(\E i \in 1..Len(k.r) : \E j \in 1..Len(x.B) : Near_(x.c, k.r[i].u, x.B[j])), r |-> k.r]
(* strictly inside of x, and apart *)
Encloses(x, y) == LET k == Cross(x.c, y.c) IN k.ok /\ k.r = <<>> /\ InLoop(x, Point(y.c, y.B[1])) = 1
Separate(x, y) == LET k == Cross(x.c, y.c) IN k.ok /\ k.r = <<>> /\ InLoop(x, Point(y.c, y.B[1])) = 0 /\ InLoop(y, Point(x.c, x.B[1])) = 0
=============================================================================

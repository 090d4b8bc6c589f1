------------------------------ MODULE Polygon ------------------------------
(***************************************************************************)
(* Closed polygons, which may touch or cross themselves, and the points they  *)
(* turn around.  The turns around x are the crossings of a ray from x, up     *)
(* minus down; the ray's direction, nearly level, meets no vertex: neither on *)
(* the grid nor off it by the fractions used here.                            *)
(***************************************************************************)
EXTENDS Bspline, TLC, Json
Ray_ == <<RI(4096), One>>
Cross_(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Corner(P, i) == P[((i - 1) % Len(P)) + 1]
SideOf(x, p) == RCmp(Cross_(Ray_, VSub(p, x)), Zero)
Turn_(a, b, x) == RCmp(Cross_(VSub(b, a), VSub(x, a)), Zero)
(* the ray leaves x towards growing first coordinates: it meets an edge       *)
(* running up across it, when x is on the edge's left                         *)
Step_(a, b, x) ==
  IF SideOf(x, a) < 0 /\ SideOf(x, b) > 0 /\ Turn_(a, b, x) > 0 THEN 1
  ELSE IF SideOf(x, a) > 0 /\ SideOf(x, b) < 0 /\ Turn_(a, b, x) < 0 THEN -1 ELSE 0
RECURSIVE Turns_(_, _, _)
Turns_(P, x, i) == IF i = 0 THEN 0 ELSE Turns_(P, x, i - 1) + Step_(Corner(P, i), Corner(P, i + 1), x)
Winding(P, x) == Turns_(P, x, Len(P))
OnEdge(a, b, x) == Turn_(a, b, x) = 0 /\ Le(VDot(VSub(a, x), VSub(b, x)), Zero)
OnPolygon(P, x) == \E i \in 1..Len(P) : OnEdge(Corner(P, i), Corner(P, i + 1), x)
Ask(P, x) == [x |-> x, n |-> Winding(P, x)]

VARIABLES poly, asked
(* the turns do not depend on where the polygon starts, and change sign with its direction *)
RotP(P) == Tail(P) \o <<P[1]>>
RevP(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
StartInv == \A i \in 1..Len(asked) : Winding(RotP(poly), asked[i].x) = asked[i].n
TurnInv == \A i \in 1..Len(asked) : Winding(RevP(poly), asked[i].x) = -asked[i].n
(* the polygon is the sum of the triangles from its first vertex *)
RECURSIVE Fan(_, _, _)
Fan(P, x, i) == IF i >= Len(P) THEN 0 ELSE Winding(<<P[1], P[i], P[i + 1]>>, x) + Fan(P, x, i + 1)
FanInv == \A i \in 1..Len(asked) : LET x == asked[i].x IN
  (\A k \in 2..Len(poly) : ~OnEdge(poly[1], poly[k], x)) => Fan(poly, x, 2) = asked[i].n
=============================================================================

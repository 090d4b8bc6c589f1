----------------------------- MODULE GenPolygon -----------------------------
(* Random polygons, with level and repeated vertices, asked near their        *)
(* vertices and edges and level with them                                      *)
EXTENDS Polygon, Rnd
CONSTANTS MaxLen
Fresh(st) == <<RI(RndInt(-9, 9, st)), RI(RndInt(-9, 9, st))>>
RECURSIVE Make(_, _, _)
Make(P, n, st) ==
  IF n = 0 THEN P
  ELSE LET k == RndInt(1, 6, st)  p == IF P = <<>> THEN Fresh(st) ELSE P[Len(P)]
           x == TLCEval(IF P = <<>> \/ k <= 3 THEN Fresh(st) ELSE IF k = 4 THEN <<RI(RndInt(-9, 9, st)), p[2]>> ELSE IF k = 5 THEN <<p[1], RI(RndInt(-9, 9, st))>> ELSE RndSeq(P, st))
       IN  Make(Append(P, x), n - 1, st)
Spot(P, st) ==
  LET i == RndInt(1, Len(P), st)  k == RndInt(1, 5, st)  p == Corner(P, i)  q == Corner(P, i + 1) IN
  TLCEval(CASE k = 1 -> <<RQ(RndInt(-80, 80, st), 8), RQ(RndInt(-80, 80, st), 8)>>
    [] k = 2 -> <<RQ(RndInt(-80, 80, st), 8), p[2]>>
    [] k = 3 -> <<p[1], RQ(RndInt(-80, 80, st), 8)>>
    [] k = 4 -> VAdd(VLerp(p, q, RQ(1, 2)), <<RQ(RndInt(-2, 2, st), 8), RQ(RndInt(-2, 2, st), 8)>>)
    [] OTHER -> VAdd(p, <<RQ(RndInt(-2, 2, st), 8), RQ(RndInt(-2, 2, st), 8)>>))
PInit == poly = <<>> /\ asked = <<>>
PMake == poly = <<>> /\ \E n \in {RndInt(3, MaxLen, asked)} : \E P \in {TLCEval(Make(<<>>, n, asked))} : poly' = P /\ UNCHANGED asked
PAsk == poly # <<>> /\ asked = <<>> /\ \E Q \in {TLCEval([i \in 1..40 |-> Spot(poly, asked)])} :
          /\ asked' = LET R == SelectSeq(Q, LAMBDA x : ~OnPolygon(poly, x)) IN TLCEval([i \in 1..Len(R) |-> Ask(poly, R[i])])
          /\ PrintT(ToJson([m |-> "polygon", P |-> poly, qs |-> asked'])) /\ UNCHANGED poly
PNext == PMake \/ PAsk
=============================================================================

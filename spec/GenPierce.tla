----------------------------- MODULE GenPierce -----------------------------
(* Random scenes of a surface and a space curve with all their piercings *)
EXTENDS GenCurve, Solids, Zoom
CONSTANTS Sorts, SurfDeg
VARIABLES sf, crv, res, seen
pvars == <<vars, shape, sf, crv, res, seen>>
PInit == GInit /\ sf = NoOp /\ crv = NoOp /\ res = NoOp /\ seen = NoOp
Others == UNCHANGED <<sf, crv, res, seen>>
PShape == phase = "new" /\ shape = NoOp /\ shape' = [RndShape(phase) EXCEPT !.dim = 3] /\ UNCHANGED vars /\ Others
Whole == phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1

-----------------------------------------------------------------------------
(* surfaces *)
(* profiles of extruded surfaces: polylines, conics, splines of degree 2 *)
RndProfile(st) ==
  LET k == RndInt(1, 3, st) IN
  CASE k = 1 -> LET n == RndInt(2, 5, st)  P == TLCEval([i \in 1..n |-> At3(<<RQ(RndInt(-16, 16, st), 2), RQ(RndInt(-16, 16, st), 2)>>)]) IN
                [p |-> 1, U |-> <<Zero>> \o [i \in 1..n |-> RI(i - 1)] \o <<RI(n - 1)>>, P |-> P]
    [] k = 2 -> RoundOf(<<RI(RndInt(-3, 3, st)), RI(RndInt(-3, 3, st))>>, <<RI(RndInt(1, 6, st)), Zero>>, <<Zero, RI(RndInt(1, 6, st))>>, RndSeq(HalfTurns, st))
    [] OTHER -> LET sh == TLCEval([RndShape(st) EXCEPT !.p = 2, !.dim = 2, !.clamped = TRUE, !.mults = TLCEval([i \in 1..4 |-> 1])])
                    U == KnotsOf(sh)
                IN  [p |-> 2, U |-> U, P |-> TLCEval([i \in 1..(Len(U) - 3) |-> RndPt(sh, st)])]
RndLifted(st) == LET l == RQ(RndInt(4, 18, st), 2)  f == TLCEval(RndProfile(st)) IN [kind |-> "lifted", f |-> f, l |-> l, s |-> Lifted(f, l)]

PSurface ==
  /\ Whole /\ sf = NoOp
  /\ \E k \in {RndSeq(Sorts, hist)} :
     \E x \in {TLCEval(CASE k = "graph" -> RndGraph(SurfDeg, hist) [] k = "ball" -> RndBall(hist) [] k = "cone" -> RndCone(hist)
                         [] k = "torus" -> RndTorus(hist) [] OTHER -> RndLifted(hist))} :
        sf' = [x EXCEPT !.kind = k]
  /\ UNCHANGED <<vars, shape, crv, res, seen>>

-----------------------------------------------------------------------------
(* curves: the current one, or lines and polylines through points of the surface *)
Some(s, st) == TLCEval(SPoint(s, RLerp(SLoU(s), SHiU(s), RQ(RndInt(0, 16, st), 16)), RLerp(SLoV(s), SHiV(s), RQ(RndInt(1, 15, st), 16))))
Vec3(a, st) == TLCEval([i \in 1..3 |-> RQ(RndInt(-a, a, st), 2)])
PLine(P) == LET n == Len(P) IN [p |-> 1, U |-> <<Zero>> \o [i \in 1..n |-> RI(i - 1)] \o <<RI(n - 1)>>, P |-> [i \in 1..n |-> P[i] \o <<One>>]]
Aimed(s, st) == LET x == Some(s, st)  d == Vec3(8, st)  k == RQ(RndInt(-1, 8, st), 4)  l == RQ(RndInt(1, 8, st), 4) IN
    \* or from a point of the surface, or up to one
  TLCEval(IF RndInt(1, 4, st) = 1 THEN PLine(<<x, VAdd(x, VScale(d, l))>>) ELSE IF Eq(k, Zero) THEN PLine(<<VAdd(x, VScale(d, l)), x>>) ELSE PLine(<<VSub(x, VScale(d, k)), VAdd(x, VScale(d, l))>>))
Woven(s, st) == LET n == RndInt(2, 4, st) IN    \* through several points of the surface, beyond each
  TLCEval(PLine([i \in 1..(n + 1) |-> IF i % 2 = 1 THEN VAdd(Some(s, st), Vec3(6, st)) ELSE VSub(Some(s, st), Vec3(6, st))]))
RndRing(st) ==
  LET D == RndSeq(Dirs3, st)  c == RoundOf(Unit2, <<RQ(RndInt(2, 16, st), 2), Zero>>, <<Zero, RQ(RndInt(2, 16, st), 2)>>, RndSeq(HalfTurns, st))  o == Vec3(8, st) IN
  TLCEval([c EXCEPT !.P = [i \in 1..N(c) |-> VAdd(VAdd(VScale(D[1], c.P[i][1]), VScale(D[2], c.P[i][2])), VScale(o, c.P[i][3])) \o <<c.P[i][3]>>]])
CurveKinds == <<"spline", "spline", "aimed", "aimed", "woven", "ring", "apart">>
Id3 == << <<One, Zero, Zero>>, <<Zero, One, Zero>>, <<Zero, Zero, One>> >>
PCurve ==
  /\ sf # NoOp /\ crv = NoOp
  /\ \E k \in {RndSeq(CurveKinds, hist)} :
     \E c \in {CASE k = "spline" -> cur [] k = "aimed" -> Aimed(sf.s, hist) [] k = "woven" -> Woven(sf.s, hist) [] k = "ring" -> RndRing(hist)
                 [] OTHER -> Transform(cur, Id3, <<RI(50), RI(RndInt(-9, 9, hist)), RI(RndInt(-9, 9, hist))>>)} :
        crv' = [kind |-> k, c |-> c, ok |-> (Valid(c) /\ SValid(sf.s)) = TRUE]
  /\ UNCHANGED <<vars, shape, sf, res, seen>>
Low(c) == c.p * (IF sf.kind = "graph" THEN sf.s.p + sf.s.q ELSE IF sf.kind = "torus" THEN 4 ELSE 2) <= 12
PSolve ==
  /\ crv # NoOp /\ res = NoOp
  /\ res' = IF ~crv.ok \/ ~Low(crv.c) THEN Fail_
            ELSE CASE sf.kind = "graph" -> GraphHits(sf.s, crv.c)
                   [] sf.kind = "lifted" -> LiftHits(sf.f, sf.l, crv.c)
                   [] OTHER -> RoundHits(sf, crv.c)
  /\ UNCHANGED <<vars, shape, sf, crv, seen>>
Usable == (res.ok /\ Spread(crv.c, res.r)) = TRUE

-----------------------------------------------------------------------------
(* what the code is shown: the scene mapped, the surface refined or turned *)
Proj(h, a) == <<h[1], h[2], h[3], RAdd(h[4], RAdd(RMul(a[1], h[1]), RAdd(RMul(a[2], h[2]), RMul(a[3], h[3]))))>>
ProjX(x, a) == LET h == Proj(x \o <<One>>, a) IN Dehom(h)
OkW(w) == Lt(RQ(1, 4), w)
PShow ==
  /\ res # NoOp /\ seen = NoOp /\ Usable
  /\ \E M \in {RndOf(Mats(3) \cup {Id3}, hist)}, t \in {RndOf(Shifts(3), hist)}, pr \in {TLCEval(IF RndInt(1, 4, hist) = 1 THEN [i \in 1..3 |-> RQ(RndInt(-2, 2, hist), 64)] ELSE <<Zero, Zero, Zero>>)},
        how \in {RndInt(0, 3, hist)}, ru \in {RndInt(1, 15, hist)}, rv \in {RndInt(1, 15, hist)} :
     \E a \in {TLCEval([i \in 1..Len(sf.s.P) |-> [j \in 1..Len(sf.s.P[1]) |-> Proj(sf.s.P[i][j], pr)]])}, b \in {TLCEval([i \in 1..N(crv.c) |-> Proj(crv.c.P[i], pr)])} :
     \E pos \in {(\A i \in 1..Len(a) : \A j \in 1..Len(a[1]) : OkW(a[i][j][4])) /\ (\A i \in 1..Len(b) : OkW(b[i][4]))} :
     \E s0 \in {IF pos THEN [sf.s EXCEPT !.P = a] ELSE sf.s}, c0 \in {IF pos THEN [crv.c EXCEPT !.P = b] ELSE crv.c} :
     \E s1 \in {TLCEval(IF how \in {1, 3} THEN OnV(OnU(s0, LAMBDA c : Refine(c, <<RLerp(DomLo(c), DomHi(c), RQ(ru, 16))>>)), LAMBDA c : Refine(c, <<RLerp(DomLo(c), DomHi(c), RQ(rv, 16))>>)) ELSE s0)} :
     \E s2 \in {TLCEval(IF how \in {2, 3} THEN Swap(s1) ELSE s1)} :
     \E s3 \in {TLCEval([s2 EXCEPT !.P = [i \in 1..Len(s2.P) |-> [j \in 1..Len(s2.P[1]) |-> MapH(M, t, s2.P[i][j])]]])} :
       seen' = [s |-> s3, c |-> Transform(c0, M, t), kind |-> sf.kind, curve |-> crv.kind, how |-> how, closed |-> Closed3(crv.c), rational |-> pos /\ pr # <<Zero, Zero, Zero>>,
                x |-> [i \in 1..Len(res.r) |-> [t |-> res.r[i].t, x |-> MapP(M, t, IF pos THEN ProjX(res.r[i].x, pr) ELSE res.r[i].x),
                                                uv |-> IF res.r[i].uv = <<>> THEN <<>> ELSE IF how \in {2, 3} THEN <<res.r[i].uv[2], res.r[i].uv[1]>> ELSE res.r[i].uv]]]
  /\ UNCHANGED <<vars, shape, sf, crv, res>>
(* at another size, the surface and the curve each at its own pace *)
Zoomed(z) == [seen EXCEPT !.s = ZoomS(seen.s, z.g, z.fa, z.fb), !.c = ZoomC(seen.c, z.g, z.fc),
                          !.x = [i \in 1..Len(seen.x) |-> LET h == seen.x[i] IN
                                   [t |-> RMul(z.fc, h.t), x |-> VScale(h.x, z.g), uv |-> IF h.uv = <<>> THEN <<>> ELSE <<RMul(z.fa, h.uv[1]), RMul(z.fb, h.uv[2])>>]]] @@ [zoom |-> z]
PEmit ==
  /\ phase = "run" /\ res # NoOp /\ (seen # NoOp \/ ~Usable)
  /\ (seen # NoOp => \E z \in {TLCEval(RndZoom(hist))} : PrintT(ToJson([m |-> "pierce", s |-> Zoomed(z)]))) = TRUE
  /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, sf, crv, res, seen>>
PNext == PShape \/ ((GCreate \/ GChoose \/ GApply) /\ Others) \/ PSurface \/ PCurve \/ PSolve \/ PShow \/ PEmit

(* every hit is on the shown curve, and on the shown surface where its parameters are known *)
WithinR(x, y, e) == LET d == VSub(x, y) IN Lt(VDot(d, d), RMul(e, e))
Close(x, y) == WithinR(x, y, RQ(1, 10000))
HitInv == seen # NoOp => \A i \in 1..Len(seen.x) : LET h == seen.x[i] IN
   /\ Close(Point(seen.c, h.t), h.x)
   /\ (h.uv # <<>> => WithinR(SPoint(seen.s, h.uv[1], h.uv[2]), h.x, RQ(1, 100)))
(* the round surfaces' nets satisfy their implicit forms *)
NetPoint(i, j) == SPoint(sf.s, RLerp(SLoU(sf.s), SHiU(sf.s), RQ(i, 7)), RLerp(SLoV(sf.s), SHiV(sf.s), RQ(j, 5)))
FormInv == (sf # NoOp /\ crv = NoOp /\ sf.kind \in {"ball", "cone", "torus"}) => \A i \in 0..7 : \A j \in 0..5 :
   Eq(RoundPoly(sf, [p |-> 1, U |-> <<Zero, Zero, One, One>>, P |-> <<NetPoint(i, j) \o <<One>>, <<Zero, Zero, Zero, One>> >>])[1], Zero)
FarInv == (res # NoOp /\ crv.kind = "apart" /\ res.ok) => res.r = <<>>
=============================================================================

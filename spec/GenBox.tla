------------------------------- MODULE GenBox -------------------------------
(* Random boxes, objects to be enclosed or subdivided, and triangle meshes    *)
EXTENDS GenCurve, Solids, Boxes
CONSTANTS Kinds, SurfDeg
VARIABLES sf, out
bvars == <<vars, shape, sf, out>>
BInit == GInit /\ sf = NoOp /\ out = NoOp
BBase == (GShape \/ GCreate \/ GChoose \/ GApply) /\ UNCHANGED <<sf, out>>
Whole == phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1

(* boxes around random points; distances are multiples of 1/4, tolerances of 1/8 *)
RndPoints(d, n, st) == TLCEval([i \in 1..n |-> TLCEval([k \in 1..d |-> RQ(RndInt(-24, 24, st), 4)])])
RndBoxes(st) ==
  LET d == RndInt(2, 3, st)  n == RndInt(1, 12, st)
      P == RndPoints(d, IF n < 3 THEN n ELSE n \div 3, st)
      Q0 == RndPoints(d, RndInt(1, 4, st), st)
      k == RndInt(1, d, st)
      \* often aligned with a side of the other box, so that they touch or nearly
      Q == IF RndInt(1, 2, st) = 1 THEN Q0
           ELSE LET a == TLCEval(BoxAround(P))  q == TLCEval(BoxAround(Q0))
                    s == RSub(a.hi[k], q.lo[k])  e == RQ(RndInt(-1, 3, st), 4)
                IN  TLCEval([i \in 1..Len(Q0) |-> [j \in 1..d |-> IF j = k THEN RAdd(Q0[i][j], RAdd(s, e)) ELSE Q0[i][j]]])
      a == TLCEval(BoxAround(P))  b == TLCEval(BoxAround(Q))
      tol == RndOf({<<>>, <<Zero>>, <<RQ(1, 8)>>, <<RQ(1, 4)>>, <<RI(1)>>}, st)
      t == IF tol = <<>> THEN Zero ELSE tol[1]
      x == TLCEval([i \in 1..8 |-> IF RndInt(1, 3, st) = 1 THEN RndPoints(d, 1, st)[1]
                      ELSE [j \in 1..d |-> RLerp(a.lo[j], a.hi[j], RQ(RndInt(-1, 5, st), 4))]])
      none == RndInt(1, 12, st) = 1
      aa == IF none THEN Void ELSE a
  IN  [m |-> "box", kind |-> "algebra", k |-> RndOf({0, 0, 300, -600, -30}, st), P |-> IF none THEN <<>> ELSE P, Q |-> Q, tol |-> tol,
       box |-> aa, other |-> b, meets |-> Meets(aa, b, t), apart |-> ~Meets(aa, b, RMul(RI(2), t)),
       x |-> x, has |-> [i \in 1..8 |-> Holds_(aa, x[i])], size |-> IF none THEN <<>> ELSE SizeOf(a), centre |-> IF none THEN <<>> ELSE Centre(a),
       corners |-> IF none THEN <<>> ELSE CornersOf(a), edges |-> IF none THEN <<>> ELSE EdgesOf(a)]

(* surfaces *)
RndSurface(st) ==
  LET k == RndInt(1, 8, st)
      x == TLCEval(CASE k = 1 -> RndBall(st).s [] k = 2 -> RndCone(st).s [] k = 3 -> RndTorus(st).s [] OTHER -> RndGraph(SurfDeg, st).s)
  IN  IF RndInt(1, 2, st) = 1 THEN x ELSE TLCEval(Swap(x))
Ids(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]]
Moved(s, M, t) == [s EXCEPT !.P = TLCEval([i \in 1..Len(s.P) |-> [j \in 1..Len(s.P[1]) |-> MapH(M, t, s.P[i][j])]])]
(* a second curve in the space of the first *)
RndCurve(d, st) ==
  LET sh == TLCEval([RndShape(st) EXCEPT !.dim = d])  U == TLCEval(KnotsOf(sh))
  IN  [p |-> sh.p, U |-> U, P |-> TLCEval([i \in 1..(Len(U) - sh.p - 1) |-> RndPt(sh, st)])]
InC(c, k, n) == RLerp(DomLo(c), DomHi(c), RQ(k, n))
InS(s, i, j, n) == <<RLerp(SLoU(s), SHiU(s), RQ(i, n)), RLerp(SLoV(s), SHiV(s), RQ(j, n))>>
Samples(c, n) == [i \in 1..(n + 1) |-> LET u == InC(c, i - 1, n) IN [t |-> u, x |-> Point(c, u)]]
SNet(s) == Cat([i \in 1..Len(s.P) |-> [j \in 1..Len(s.P[1]) |-> Dehom(s.P[i][j])]])

(* what a box is computed of *)
Hulls(st) ==
  LET k == RndInt(1, 3, st)  m == RndInt(1, 15, st)  s == RndSurface(st)  u == InC(cur, m, 16) IN
  CASE k = 1 -> [m |-> "box", kind |-> "hull", of |-> "curve", o |-> <<cur>>, x |-> [i \in 1..17 |-> Point(cur, InC(cur, i - 1, 16))], hull |-> BoxAround(Net(cur))]
    [] k = 2 -> LET a == TLCEval(Restrict(cur, DomLo(cur), u))  b == TLCEval(Restrict(cur, u, DomHi(cur))) IN
                [m |-> "box", kind |-> "hull", of |-> "compound", o |-> <<a, b>>, x |-> [i \in 1..17 |-> Point(cur, InC(cur, i - 1, 16))], hull |-> BoxAround(Net(a) \o Net(b))]
    [] OTHER -> [m |-> "box", kind |-> "hull", of |-> "surface", o |-> <<s>>, x |-> [i \in 1..25 |-> LET q == InS(s, (i - 1) \div 5, (i - 1) % 5, 4) IN SPoint(s, q[1], q[2])], hull |-> BoxAround(SNet(s))]

Parts(st) == RndOf({<<>>, <<2>>, <<5>>, <<8>>, <<16>>, <<40>>}, st)
TolC(c, k) == IF k = <<>> THEN <<>> ELSE <<RDiv(RSub(DomHi(c), DomLo(c)), RI(k[1]))>>
TolS(s, k, l) == <<RDiv(RSub(SHiU(s), SLoU(s)), RI(k)), RDiv(RSub(SHiV(s), SLoV(s)), RI(l))>>
Trees(st) ==
  IF RndInt(1, 3, st) < 3 THEN [m |-> "box", kind |-> "tree", of |-> "curve", o |-> cur, tol |-> TolC(cur, Parts(st))]
  ELSE LET s == RndSurface(st) IN
       [m |-> "box", kind |-> "tree", of |-> "surface", o |-> s, tol |-> TolS(s, RndInt(1, 6, st), RndInt(1, 6, st)), first |-> RndOf({"u", "v"}, st)]

(* two objects moved so that they share a point *)
Meetings(st) ==
  LET k == RndInt(1, 4, st)  d == Len(cur.P[1]) - 1
      a == RndSurface(st)  b == IF k = 1 THEN cur ELSE TLCEval(RndCurve(d, st))
      e(n) == RndOf({0, n, RndInt(1, n - 1, st), RndInt(1, n - 1, st)}, st)
      s == TLCEval(InC(cur, e(16), 16))  t == TLCEval(IF k = 1 THEN s ELSE InC(b, e(16), 16))
      q == TLCEval(InS(a, e(8), e(8), 8))
  IN  IF d = 3 /\ k > 2 THEN
        [m |-> "box", kind |-> "meet", of |-> "surface", a |-> a, b |-> TLCEval(Transform(cur, Ids(3), VSub(SPoint(a, q[1], q[2]), Point(cur, s)))), s |-> q, t |-> s,
         tola |-> TolS(a, RndInt(1, 8, st), RndInt(1, 8, st)), tolb |-> TolC(cur, <<RndInt(2, 16, st)>>), first |-> RndOf({"u", "v"}, st)]
      ELSE [m |-> "box", kind |-> "meet", of |-> "curve", a |-> cur, b |-> TLCEval(Transform(b, Ids(d), VSub(Point(cur, s), Point(b, t)))), s |-> <<s>>, t |-> t,
            tola |-> TolC(cur, Parts(st)), tolb |-> TolC(b, Parts(st))]

(* meshes: parts in a plane each, as plane coordinates L and as points V      *)
RndPart(d, st) ==
  LET n == RndInt(0, 6, st) + 3  D == RndSeq(Dirs3, st)  o == TLCEval(<<RQ(RndInt(-9, 9, st), 2), RI(RndInt(-9, 9, st)), RI(RndInt(-9, 9, st))>>)
      L == RndPoints(2, n, st)
      f == RndInt(0, 6, st)
      F == TLCEval([i \in 1..f |-> TLCEval([j \in 1..3 |-> RndInt(0, n - 1, st)])])
      V == TLCEval([i \in 1..n |-> IF d = 2 THEN L[i] ELSE VAdd(o, VAdd(VScale(D[1], L[i][1]), VScale(D[2], L[i][2])))])
  IN  TLCEval([V |-> V, F |-> F, area |-> MeshArea(L, F), T |-> [i \in 1..f |-> [j \in 1..3 |-> V[F[i][j] + 1]]]])
Meshes(st) ==
  LET d == RndInt(2, 3, st)  n == RndInt(1, 4, st)  M == TLCEval([i \in 1..n |-> RndPart(d, st)])
  IN  [m |-> "box", kind |-> "mesh", d |-> d, parts |-> M, total |-> SumOf([i \in 1..n |-> M[i].area], n), T |-> Cat([i \in 1..n |-> M[i].T])]

BMake ==
  /\ Whole /\ out = NoOp
  /\ \E k \in {RndSeq(Kinds, hist)} :
     \E x \in {TLCEval(CASE k = "algebra" -> RndBoxes(hist) [] k = "hull" -> Hulls(hist) [] k = "tree" -> Trees(hist) [] k = "meet" -> Meetings(hist) [] OTHER -> Meshes(hist))} : out' = x
  /\ UNCHANGED <<vars, shape, sf>>
BEmit == out # NoOp /\ phase = "run" /\ PrintT(ToJson(out)) /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, sf, out>>
BNext == BBase \/ BMake \/ BEmit

(* points of the objects are in the hulls; parts of a curve in that of the curve *)
HullInv == (out # NoOp /\ out.kind = "hull") => \A i \in 1..Len(out.x) : Holds_(out.hull, out.x[i])
NestInv == (out # NoOp /\ out.kind = "tree" /\ out.of = "curve") => \A i \in 0..3 :
              LET c == Restrict(out.o, InC(out.o, i, 4), InC(out.o, i + 1, 4)) IN Inner(BoxAround(Net(c)), BoxAround(Net(out.o)))
SharedInv == (out # NoOp /\ out.kind = "meet") =>
   VEq(Point(out.b, out.t), IF out.of = "curve" THEN Point(out.a, out.s[1]) ELSE SPoint(out.a, out.s[1], out.s[2]))
=============================================================================

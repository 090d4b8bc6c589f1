------------------------------- MODULE Pierce -------------------------------
(***************************************************************************)
(* Where a rational space curve pierces a surface.  Three families of        *)
(* surfaces have an implicit form, up to an affine (or projective) map of    *)
(* the whole scene: graphs z = f(x, y) of splines, round surfaces (sphere,   *)
(* cone frustum, torus), and extruded plane curves.  Substituting the Bezier *)
(* pieces of the curve gives Bernstein polynomials whose roots are isolated  *)
(* as in Plane; scenes not in general position are not used.                 *)
(* A hit is [t, x, uv]: the curve's parameter, the point, the surface's      *)
(* parameters where they are known (<<>> otherwise).                         *)
(***************************************************************************)
EXTENDS Plane, Tensor

Norm2_(v) == VDot(v, v)
Cross3_(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Steep(n, d) == LET k == VDot(n, d) IN Lt(RMul(Flat_, RMul(Norm2_(n), Norm2_(d))), RMul(k, k))
RECURSIVE BPow(_, _)
BPow(b, k) == IF k = 0 THEN <<One>> ELSE IF k = 1 THEN b ELSE BMul(b, BPow(b, k - 1))
(* component k of a Bezier curve, as a Bernstein polynomial *)
Comp(z, k) == [i \in 1..N(z) |-> z.P[i][k]]
(* l[1]*X + l[2]*Y + l[3]*Z + l[4]*W along z *)
Form(z, l) == [i \in 1..N(z) |-> VDot(l, z.P[i])]
RECURSIVE SumR(_)
SumR(s) == IF s = <<>> THEN Zero ELSE RAdd(s[1], SumR(Tail(s)))
RECURSIVE VSumR(_, _)
VSumR(f, n) == IF n = 1 THEN f[1] ELSE VAdd(f[n], VSumR(f, n - 1))

-----------------------------------------------------------------------------
(* roots along the curve: polynomials Q of the pieces over the breaks B      *)
RECURSIVE RootsR(_, _, _)
RootsR(Q, B, i) ==
  IF i > Len(Q) THEN None_
  ELSE LET e == Isolate(Q[i], B[i], B[i + 1], Delta, Depth) IN
       IF ~e.ok THEN e ELSE Both_(e, RootsR(Q, B, i + 1))
(* one parameter per root; a root at a knot or dividing point appears once   *)
(* from either side                                                          *)
RECURSIVE JoinR(_, _, _)
JoinR(E, d, i) ==   \* d: the domain of an open curve, whose ends may be on the surface
  IF i > Len(E) THEN None_
  ELSE IF E[i].at = 0 THEN LET r == JoinR(E, d, i + 1) IN [r EXCEPT !.r = <<RLerp(E[i].lo, E[i].hi, Half_)>> \o r.r]
  ELSE IF E[i].at = 1 /\ i < Len(E) /\ E[i + 1].at = 2 /\ Eq(E[i + 1].lo, E[i].hi) /\ E[i].sg # E[i + 1].sg THEN
       LET r == JoinR(E, d, i + 2) IN [r EXCEPT !.r = <<E[i].hi>> \o r.r]
  ELSE IF E[i].at = 2 /\ d # <<>> /\ Eq(E[i].lo, d[1]) THEN LET r == JoinR(E, d, i + 1) IN [r EXCEPT !.r = <<d[1]>> \o r.r]
  ELSE IF E[i].at = 1 /\ d # <<>> /\ Eq(E[i].hi, d[2]) THEN [ok |-> TRUE, r |-> <<d[2]>>]
  ELSE Fail_
Joined(E, lo, hi, closed) ==
  LET n == Len(E) IN
  IF closed /\ n > 1 /\ E[1].at = 2 /\ E[n].at = 1 /\ Eq(E[1].lo, lo) /\ Eq(E[n].hi, hi) THEN
    IF E[1].sg = E[n].sg THEN Fail_
    ELSE LET r == JoinR(SubSeq(E, 2, n - 1), <<>>, 1) IN [r EXCEPT !.r = <<lo>> \o r.r]
  ELSE JoinR(E, IF closed THEN <<>> ELSE <<lo, hi>>, 1)
Closed3(c) == VEq(Point(c, DomLo(c)), Point(c, DomHi(c)))
Roots(Q, c) ==
  LET B == Breaks(c)
      e == RootsR(Q, B, 1)
      away(x) == Lt(RMul(Delta, RI(4)), AbsR(x)) \/ Eq(x, Zero)
  IN  IF ~e.ok THEN Fail_
      ELSE LET j == Joined(e.r, B[1], B[Len(B)], Closed3(c)) IN
           [ok |-> j.ok, r |-> j.r, ends |-> Closed3(c) \/ (away(Q[1][1]) /\ away(Last_(Last_(Q))))]
(* candidates h of [t, x, uv, on, tr]: those on the surface, if all settled  *)
RECURSIVE KeepR(_, _)
KeepR(H, i) ==
  IF i > Len(H) THEN None_
  ELSE IF H[i].on = -1 THEN KeepR(H, i + 1)
  ELSE IF H[i].on = 0 \/ ~H[i].tr THEN Fail_
  ELSE LET r == KeepR(H, i + 1) IN [r EXCEPT !.r = <<[t |-> H[i].t, x |-> H[i].x, uv |-> H[i].uv]>> \o r.r]

-----------------------------------------------------------------------------
(* Graphs: a surface s whose points are (u, v, f(u, v)) *)
Greville(U, p, i) == RDiv(SumR(SubSeq(U, i + 1, i + p)), RI(p))
GraphOf(p, q, U, V, F) ==
  [p |-> p, q |-> q, U |-> U, V |-> V,
   P |-> [i \in 1..Len(F) |-> [j \in 1..Len(F[1]) |-> <<Greville(U, p, i), Greville(V, q, j), F[i][j], One>>]]]
(* its Bezier patches [a, b, c, d, F] over [a,b] x [c,d] *)
Patches(s) ==
  LET BU == Breaks(AsU(s))  BV == Breaks(AsU(Swap(s)))
      ZU == Beziers(AsU(s))
  IN  [k \in 1..((Len(BU) - 1) * (Len(BV) - 1)) |->
        LET i == ((k - 1) \div (Len(BV) - 1)) + 1  j == ((k - 1) % (Len(BV) - 1)) + 1
            su == FromU(s, ZU[i])
            sv == Swap(FromU(Swap(su), Restrict(AsU(Swap(su)), BV[j], BV[j + 1])))
        IN  [a |-> BU[i], b |-> BU[i + 1], c |-> BV[j], d |-> BV[j + 1],
             F |-> [x \in 1..Len(sv.P) |-> [y \in 1..Len(sv.P[1]) |-> sv.P[x][y][3]]]]]
(* f*W^(p+q) - Z*W^(p+q-1) along the curve piece z *)
GraphPoly(pt, z) ==
  LET p == Len(pt.F) - 1  q == Len(pt.F[1]) - 1
      w1 == RDiv(One, RSub(pt.b, pt.a))  w2 == RDiv(One, RSub(pt.d, pt.c))
      x1 == TLCEval(Form(z, <<w1, Zero, Zero, RNeg(RMul(pt.a, w1))>>))
      x0 == TLCEval(Form(z, <<RNeg(w1), Zero, Zero, RMul(pt.b, w1)>>))
      y1 == TLCEval(Form(z, <<Zero, w2, Zero, RNeg(RMul(pt.c, w2))>>))
      y0 == TLCEval(Form(z, <<Zero, RNeg(w2), Zero, RMul(pt.d, w2)>>))
      bx == TLCEval([i \in 1..(p + 1) |-> BMul(BPow(x0, p + 1 - i), BPow(x1, i - 1))])
      by == TLCEval([j \in 1..(q + 1) |-> BMul(BPow(y0, q + 1 - j), BPow(y1, j - 1))])
      row(i) == VSumR([j \in 1..(q + 1) |-> VScale(by[j], RMul(RI(C_(q, j - 1)), pt.F[i][j]))], q + 1)
      sum == VSumR(TLCEval([i \in 1..(p + 1) |-> VScale(BMul(bx[i], row(i)), RI(C_(p, i - 1)))]), p + 1)
  IN  TLCEval(VSub(sum, BMul(Comp(z, 3), BPow(Comp(z, 4), p + q - 1))))
(* where (u, v) lies: -1 off the patch, 1 on it, 0 not settled; outer: is the *)
(* side part of the surface's boundary                                       *)
Side(x, lo, hi, olo, ohi) ==
  LET m(o) == IF o THEN RMul(Edge, RSub(hi, lo)) ELSE RQ(1, 100000)
  IN  IF Lt(x, RSub(lo, m(olo))) \/ Lt(RAdd(hi, m(ohi)), x) THEN -1
      ELSE IF Lt(RAdd(lo, m(olo)), x) /\ Lt(x, RSub(hi, m(ohi))) THEN 1 ELSE 0
OnPatch(s, pt, x) ==
  LET a == Side(x[1], pt.a, pt.b, Eq(pt.a, SLoU(s)), Eq(pt.b, SHiU(s)))
      b == Side(x[2], pt.c, pt.d, Eq(pt.c, SLoV(s)), Eq(pt.d, SHiV(s)))
  IN  IF a = -1 \/ b = -1 THEN -1 ELSE IF a = 0 \/ b = 0 THEN 0 ELSE 1
GraphHit(s, c, pt, t) ==
  LET x == Point(c, t)  k == OnPatch(s, pt, x) IN
  [t |-> t, x |-> x, uv |-> <<x[1], x[2]>>, on |-> k,
   tr |-> k = 1 /\ LET d == Partials(s, x[1], x[2]) IN Steep(Cross3_(d.u, d.v), Der1(c, t))]
RECURSIVE GraphR(_, _, _, _, _)
GraphR(s, c, Z, pts, i) ==
  IF i > Len(pts) THEN None_
  ELSE LET rt == Roots(TLCEval([j \in 1..Len(Z) |-> GraphPoly(pts[i], Z[j])]), c)
           off(u) == OnPatch(s, pts[i], Point(c, u)) = -1
       IN  IF ~rt.ok THEN Fail_
           ELSE IF ~(rt.ends \/ (off(DomLo(c)) /\ off(DomHi(c)))) THEN Fail_
           ELSE LET k == KeepR(TLCEval([j \in 1..Len(rt.r) |-> GraphHit(s, c, pts[i], rt.r[j])]), 1)
                IN  IF ~k.ok THEN Fail_ ELSE Both_(k, GraphR(s, c, Z, pts, i + 1))
GraphHits(s, c) == GraphR(s, c, TLCEval(Beziers(c)), TLCEval(Patches(s)), 1)

-----------------------------------------------------------------------------
(* Round surfaces about the z axis: a circle g (closed, unit) and a profile   *)
(* (r, z) in homogeneous form                                                *)
Spin(g, f) ==
  [p |-> g.p, q |-> f.p, U |-> g.U, V |-> f.U,
   P |-> [i \in 1..N(g) |-> [j \in 1..N(f) |->
      << RMul(f.P[j][1], g.P[i][1]), RMul(f.P[j][1], g.P[i][2]), RMul(f.P[j][2], g.P[i][3]), RMul(f.P[j][3], g.P[i][3]) >>]]]
XX == <<One, Zero, Zero, Zero>>  YY == <<Zero, One, Zero, Zero>>  ZZ == <<Zero, Zero, One, Zero>>  WW == <<Zero, Zero, Zero, One>>
BSq(b) == BMul(b, b)
(* kinds: ball [R], cone [R, m, l] of radius R + m*z over 0..l, torus [R, r] *)
RoundPoly(k, z) ==
  LET x2 == BSq(Form(z, XX))  y2 == BSq(Form(z, YY))  w == Form(z, WW) IN
  CASE k.kind = "ball" -> VScale(VSub(VAdd(VAdd(x2, y2), BSq(Form(z, ZZ))), VScale(BSq(w), RMul(k.R, k.R))), RDiv(Half_, k.R))
    [] k.kind = "cone" -> VScale(VSub(VAdd(x2, y2), BSq(Form(z, <<Zero, Zero, k.m, k.R>>))), RDiv(Half_, k.R))
    [] OTHER ->
       LET s == VAdd(VAdd(VAdd(x2, y2), BSq(Form(z, ZZ))), VScale(BSq(w), RSub(RMul(k.R, k.R), RMul(k.r, k.r))))
       IN  VScale(VSub(BSq(s), VScale(BMul(VAdd(x2, y2), BSq(w)), RMul(RI(4), RMul(k.R, k.R)))), RDiv(RQ(1, 8), RMul(k.r, RMul(k.R, k.R))))
RoundNormal(k, x) ==
  CASE k.kind = "ball" -> x
    [] k.kind = "cone" -> <<x[1], x[2], RNeg(RMul(k.m, RAdd(k.R, RMul(k.m, x[3]))))>>
    [] OTHER -> LET s == RAdd(Norm2_(x), RSub(RMul(k.R, k.R), RMul(k.r, k.r)))
                    f == RSub(s, RMul(RI(2), RMul(k.R, k.R)))
                IN  <<RMul(f, x[1]), RMul(f, x[2]), RMul(s, x[3])>>
RoundOn(k, x) ==
  IF k.kind # "cone" THEN 1
  ELSE IF Lt(RAdd(k.R, RMul(k.m, x[3])), Zero) THEN -1 ELSE Side(x[3], Zero, k.l, TRUE, TRUE)
RoundHit(k, c, t) == LET x == Point(c, t) IN [t |-> t, x |-> x, uv |-> <<>>, on |-> RoundOn(k, x), tr |-> Steep(RoundNormal(k, x), Der1(c, t))]
RoundHits(k, c) ==
  LET Z == Beziers(c)
      rt == Roots(TLCEval([j \in 1..Len(Z) |-> RoundPoly(k, Z[j])]), c)
      off(u) == RoundOn(k, Point(c, u)) = -1
  IN  IF ~rt.ok THEN Fail_
      ELSE IF ~(rt.ends \/ (off(DomLo(c)) /\ off(DomHi(c)))) THEN Fail_
      ELSE KeepR(TLCEval([j \in 1..Len(rt.r) |-> RoundHit(k, c, rt.r[j])]), 1)

-----------------------------------------------------------------------------
(* Extruded plane curves: profile f (degree 1 or 2) over heights 0..l *)
Lifted(f, l) ==
  [p |-> f.p, q |-> 1, U |-> f.U, V |-> <<Zero, Zero, l, l>>,
   P |-> [i \in 1..N(f) |-> [j \in 1..2 |-> <<f.P[i][1], f.P[i][2], IF j = 1 THEN Zero ELSE RMul(l, f.P[i][3]), f.P[i][3]>>]]]
Flatten(c) == [c EXCEPT !.P = [i \in 1..N(c) |-> <<c.P[i][1], c.P[i][2], c.P[i][4]>>]]
LiftHit(f, l, c, h) ==
  LET x == Point(c, h.u)  k == Side(x[3], Zero, l, TRUE, TRUE)  d == Der1(f, h.v) IN
  [t |-> h.u, x |-> x, uv |-> <<h.v, x[3]>>, on |-> k, tr |-> Steep(<<d[2], RNeg(d[1]), Zero>>, Der1(c, h.u))]
LiftHits(f, l, c) ==
  LET x == Cross(Flatten(c), f) IN
  IF ~x.ok THEN Fail_ ELSE KeepR(TLCEval([j \in 1..Len(x.r) |-> LiftHit(f, l, c, x.r[j])]), 1)

Spread(c, r) == \A i, j \in 1..Len(r) : i < j =>
  LET w == RSub(DomHi(c), DomLo(c))  d == AbsR(RSub(r[i].t, r[j].t))  m == RMul(w, RQ(1, 60)) IN
  ~(Lt(d, m) \/ (Closed3(c) /\ Lt(RSub(w, d), m)))
=============================================================================

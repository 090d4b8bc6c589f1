------------------------------ MODULE Construct ------------------------------
(***************************************************************************)
(* Surfaces made from curves: what extruding, lofting, revolving and         *)
(* sweeping mean.  Lofted sections become compatible (degree, knots) by      *)
(* operations of Bspline that move no point; revolved columns are arcs in    *)
(* the sense of Conic; moving frames are carried along a curve by the least  *)
(* rotation from one tangent to the next.                                    *)
(***************************************************************************)
EXTENDS Conic

Max_(S) == CHOOSE x \in S : \A y \in S : y <= x
Range01(c) == LET w == RSub(DomHi(c), DomLo(c)) IN AffineKnots(c, RDiv(One, w), RNeg(RDiv(DomLo(c), w)))

(* ---- loft: sections over 0..1, of one degree, on one knot vector -------- *)
RECURSIVE Union2(_, _)
Union2(U, V) ==       \* every knot with the larger of its two multiplicities
  IF V = <<>> THEN U
  ELSE LET v == V[1]  k == Mult(V, v)  m == Mult(U, v)
           rest == SelectSeq(V, LAMBDA x : ~Eq(x, v))
       IN  Union2(IF k > m THEN Merge(U, Rep(v, k - m)) ELSE U, rest)
RECURSIVE UnionAll(_)
UnionAll(Us) == IF Len(Us) = 1 THEN Us[1] ELSE Union2(Us[1], UnionAll(Tail(Us)))
Compatible(cs) ==
  LET p == Max_({cs[i].p : i \in 1..Len(cs)})
      es == [i \in 1..Len(cs) |-> LET c == Range01(Clamp(cs[i])) IN IF c.p = p THEN c ELSE Elevate(c, p - c.p)]
      V == UnionAll([i \in 1..Len(cs) |-> es[i].U])
  IN  [i \in 1..Len(cs) |-> OnKnots(es[i], V)]

(* ---- turning about an axis ---------------------------------------------- *)
Cross3(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Foot(o, ax, x) == VAdd(o, VScale(ax, RDiv(VDot(VSub(x, o), ax), VDot(ax, ax))))    \* ax: any length
Norm2(v) == VDot(v, v)
NearV(a, b) == Lt(Norm2(VSub(a, b)), RMul(RQ(1, 1000000000), RAdd(One, Norm2(b))))
(* the arc a point x runs through: the angle given as m steps, sg the sense; *)
(* unit: ax of length one                                                    *)
ArcOf(o, unit, x, s) ==
  LET f == Foot(o, unit, x)
      r == VSub(x, f)
      y == Cross3(unit, r)
  IN  [c |-> f, x |-> r, y |-> IF s.sg = 1 THEN y ELSE VScale(y, RI(-1)), e0 |-> <<One, Zero>>, step |-> s.step, m |-> s.m, full |-> s.full]
OnAxis(o, unit, x) == Lt(Norm2(VSub(x, Foot(o, unit, x))), RQ(1, 100000000))
Column(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
(* rows[i][j]: the surface at the i-th angle and the j-th profile parameter   *)
Revolved(s, g, rows) ==
  LET J == {j \in 1..Len(g) : ~OnAxis(s.o, s.unit, g[j])}
      a(j) == ArcOf(s.o, s.unit, g[j], s)
      bad == {j \in J : Sweep(a(j), Column(rows, j)) # "ok"}
  IN  IF \E j \in 1..Len(g) : ~NearV(rows[1][j], g[j]) THEN "does not start at the profile"
      ELSE IF \E j \in (1..Len(g)) \ J : \E i \in 1..Len(rows) : ~NearV(rows[i][j], g[j]) THEN "a point of the axis moves"
      ELSE IF bad # {} THEN LET j == CHOOSE j \in bad : TRUE IN Sweep(a(j), Column(rows, j))
      ELSE IF \E i \in 1..Len(rows) : \E j, k \in J : ~Near2(Local(a(j), rows[i][j]), Local(a(k), rows[i][k])) THEN "two points turn by different angles"
      ELSE "ok"
(* a sphere: half turns from pole to pole, full turns around *)
Sphere(s, rows) ==
  LET n == Len(rows)  m == Len(rows[1])
      h == (m + 1) \div 2
      pole(x) == NearV(x, VSub(s.o, VScale(s.unit, s.r))) \/ NearV(x, VAdd(s.o, VScale(s.unit, s.r)))
      mer(i) == LET a == VSub(rows[i][1], s.o)
                    b == VSub(rows[i][h], Foot(s.o, s.unit, rows[i][h]))
                IN  [c |-> s.o, x |-> a, y |-> VScale(b, RSqrt(RDiv(RMul(s.r, s.r), Norm2(b)))), e0 |-> <<One, Zero>>, step |-> <<RI(-1), Zero>>, m |-> 1, full |-> FALSE]
      eq(j) == [ArcOf(s.o, s.unit, rows[1][j], [sg |-> 1, step |-> <<Zero, One>>, m |-> 4, full |-> TRUE]) EXCEPT !.full = TRUE]
  IN  IF \E i \in 1..n, j \in 1..m : ~Small(RSub(RDiv(Norm2(VSub(rows[i][j], s.o)), RMul(s.r, s.r)), One)) THEN "a point is not at the radius"
      ELSE IF \E i \in 1..n : ~pole(rows[i][1]) \/ ~pole(rows[i][m]) \/ NearV(rows[i][1], rows[i][m]) THEN "does not run from pole to pole"
      ELSE IF \E i \in 1..n : Sweep(mer(i), rows[i]) # "ok" THEN "a meridian is not half a circle"
      ELSE IF \E j \in 2..(m - 1) : Sweep(eq(j), Column(rows, j)) # "ok" THEN "a parallel is not a full circle"
      ELSE "ok"

(* ---- moving frames ------------------------------------------------------- *)
(* records of the code: x, t, n, b; the curve's point and derivative there    *)
Along(d, t) == LET f == VDot(d, t) IN Lt(Zero, f) /\ Small(RSub(RDiv(RMul(f, f), Norm2(d)), One))    \* t unit, towards d
Unit(v) == Small(RSub(Norm2(v), One))
Right(f) == Unit(f.t) /\ Unit(f.n) /\ Unit(f.b) /\ NearV(Cross3(f.t, f.n), f.b)
(* the least rotation taking a to b, applied to a vector x across a           *)
Carry(a, b, x) == VSub(x, VScale(VAdd(a, b), RDiv(VDot(b, x), RAdd(One, VDot(a, b)))))
Turnable(a, b) == Lt(RQ(-9, 10), VDot(a, b))
Frames(pts, fs) ==
  LET n == Len(pts) IN
  IF Len(fs) # n THEN "one frame for every parameter"
  ELSE IF \E i \in 1..n : ~NearV(pts[i].x, fs[i].x) THEN "a frame is not at the curve's point"
  ELSE IF \E i \in 1..n : ~Right(fs[i]) THEN "a frame is not right-handed and orthonormal"
  ELSE IF \E i \in 1..n : ~Along(pts[i].d, fs[i].t) THEN "a frame does not look along the curve"
  ELSE IF \E i \in 1..(n - 1) : Turnable(fs[i].t, fs[i + 1].t) /\ ~NearV(Carry(fs[i].t, fs[i + 1].t, fs[i].n), fs[i + 1].n) THEN "the frame turns about the tangent"
  ELSE "ok"
(* a point of the profile placed in a frame: its z axis looks along the curve, its y axis along the normal *)
Place(f, x) == VAdd(f.x, VAdd(VScale(Cross3(f.n, f.t), x[1]), VAdd(VScale(f.n, x[2]), VScale(f.t, x[3]))))
=============================================================================

-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Triangle meshes of a part of the plane.  A mesh m has the sorted distinct *)
(* coordinates us and vs of its vertices, vertices uv (pairs of positions in *)
(* us and vs) and faces f (triples of positions in uv).                      *)
(* A mesh covers a part of the plane once, if all its faces run the same way *)
(* round, every directed edge off the boundary of the part occurs as often as *)
(* its reverse, and the areas sum up to that of the part: the mesh is then a  *)
(* chain whose boundary is a multiple of the part's.  (Edges only occur twice *)
(* between faces without area.)                                              *)
(***************************************************************************)
EXTENDS Bspline

At_(m, i) == <<m.us[m.uv[i][1]], m.vs[m.uv[i][2]]>>
Area2(a, b, c) == RSub(RMul(RSub(b[1], a[1]), RSub(c[2], a[2])), RMul(RSub(c[1], a[1]), RSub(b[2], a[2])))
(* faces with two vertices at one place have no inside and bound nothing *)
Kept(m) == SelectSeq(m.f, LAMBDA t : m.uv[t[1]] # m.uv[t[2]] /\ m.uv[t[2]] # m.uv[t[3]] /\ m.uv[t[3]] # m.uv[t[1]])
FaceArea(m, t) == Area2(At_(m, t[1]), At_(m, t[2]), At_(m, t[3]))
RECURSIVE SumUpto(_, _, _)   \* halving: TLC's stack is shallow
SumUpto(s, i, j) == IF i > j THEN Zero ELSE IF i = j THEN s[i] ELSE LET k == (i + j) \div 2 IN RAdd(SumUpto(s, i, k), SumUpto(s, k + 1, j))
Side_(m, F, k) == <<m.uv[F[(k + 2) \div 3][((k - 1) % 3) + 1]], m.uv[F[(k + 2) \div 3][(k % 3) + 1]]>>
Directed(m, F) == {Side_(m, F, k) : k \in 1..(3 * Len(F))}
Count(m, F, e) == Cardinality({k \in 1..(3 * Len(F)) : Side_(m, F, k) = e})
Unpaired(m, F, E) == IF Cardinality(E) = 3 * Len(F) THEN {e \in E : <<e[2], e[1]>> \notin E}
                     ELSE {e \in E : Count(m, F, e) # Count(m, F, <<e[2], e[1]>>)}
Rising(s) == \A i \in 1..(Len(s) - 1) : Lt(s[i], s[i + 1])
(* the rectangle spanned by the coordinates *)
OnSide(m, e) == LET n == Len(m.us)  k == Len(m.vs) IN
  \/ e[1][1] = e[2][1] /\ e[1][1] \in {1, n}
  \/ e[1][2] = e[2][2] /\ e[1][2] \in {1, k}
Span_(s) == RSub(s[Len(s)], s[1])
Tiling(m) ==
  LET F == Kept(m)
      A == [k \in 1..Len(F) |-> FaceArea(m, F[k])]
      E == Directed(m, F)
  IN  IF ~Rising(m.us) \/ ~Rising(m.vs) THEN "coordinates"
      ELSE IF \E k \in 1..Len(A) : Lt(A[k], Zero) THEN "a triangle runs the wrong way round"
      ELSE IF \E e \in Unpaired(m, F, E) : ~OnSide(m, e) THEN "an edge inside has a triangle on one side only"
      ELSE IF ~Eq(SumUpto(A, 1, Len(A)), RMul(RI(2), RMul(Span_(m.us), Span_(m.vs)))) THEN "the triangles do not cover the rectangle once"
      ELSE "ok"

Close_(a, b, tol) == LET d == RSub(a, b) IN Lt(d, tol) /\ Lt(RNeg(d), tol)
Tiny == RQ(1, 16777216)
Spans(s, lo, hi) == Close_(s[1], lo, Tiny) /\ Close_(s[Len(s)], hi, Tiny)

-----------------------------------------------------------------------------
(* The cells between the lines g of a grid, halved between lo and hi times    *)
RECURSIVE CellR(_, _, _, _)
CellR(g, x, i, j) == IF j - i <= 1 THEN i ELSE LET k == (i + j) \div 2 IN IF Le(g[k], x) THEN CellR(g, x, k, j) ELSE CellR(g, x, i, k)
CellAt(g, x) == CellR(g, x, 1, Len(g))
Steps2(g, x, n) ==   \* x as a multiple of the 2^n-th part of its cell
  LET i == CellAt(g, x) IN RMul(RI(2 ^ n), RDiv(RSub(x, g[i]), RSub(g[i + 1], g[i])))
Whole_(x) == Close_(x, RI(RFloor(RAdd(x, RQ(1, 2)))), RQ(1, 4096))
Dyadic(s, g, n) == \A i \in 1..Len(s) : Whole_(Steps2(g, s[i], n))
(* a triangle is within one cell halved often enough *)
Mid3(a, b, c) == RDiv(RAdd(a, RAdd(b, c)), RI(3))
FineEnough(m, gu, gv, n, t) ==
  LET a == At_(m, t[1])  b == At_(m, t[2])  c == At_(m, t[3])
      i == CellAt(gu, Mid3(a[1], b[1], c[1]))  j == CellAt(gv, Mid3(a[2], b[2], c[2]))
      cell == RMul(RSub(gu[i + 1], gu[i]), RSub(gv[j + 1], gv[j]))
  IN  Le(RMul(Area2(a, b, c), RI(2 ^ n)), RMul(cell, RQ(1001, 1000)))
(* edges along the grid between differing normals (m.rough, pairs of vertices) *)
(* only remain at a triangle halved as often as allowed                       *)
HasEdge(m, t, e) == \E k \in 1..3 : <<m.uv[t[k]], m.uv[t[(k % 3) + 1]]>> = e
Smooth(m, gu, gv, n) ==
  \A i \in 1..Len(m.rough) :
    LET e == <<m.uv[m.rough[i][1]], m.uv[m.rough[i][2]]>> IN
      \E k \in 1..Len(m.f) : (HasEdge(m, m.f[k], e) \/ HasEdge(m, m.f[k], <<e[2], e[1]>>)) /\ FineEnough(m, gu, gv, n, m.f[k])
=============================================================================

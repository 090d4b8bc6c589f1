------------------------------- MODULE Adapt -------------------------------
(***************************************************************************)
(* The refinement of a grid of cells.  A state is the set of cells left, with *)
(* the sides that are constrained to some of the grid lines: the vertices of  *)
(* a constrained side move to the nearest of these, and no edge to one that   *)
(* moves and no constrained side may be divided (Guarded).  Every refinement  *)
(* is explored, in any order; the mesh made of the cells covers the rectangle *)
(* once and has the constrained vertices on its sides.                        *)
(***************************************************************************)
EXTENDS Mesh, SequencesExt
CONSTANTS NU, NV,     \* the cells of the grid
          Depth,      \* how often a cell may be halved
          Lists,      \* which constraints are explored: "none", "ends", "some", "all"
          Guarded
VARIABLES cells, con
E == 2 ^ Depth * 840  \* the width of a cell of the grid (a mean of up to 8 vertices stays whole)
None_ == {}
ListsOf(n) == UNION {CASE k = "none" -> {None_} [] k = "ends" -> {{0, n}} [] k = "all" -> {0..n}
                       [] k = "some" -> {{0, n} \cup S : S \in SUBSET (1..(n - 1))} : k \in Lists}
Cell(x, y, w, h, d) == [x |-> x, y |-> y, w |-> w, h |-> h, d |-> d]
AInit == /\ cells = {Cell(i * E, j * E, E, E, 0) : i \in 0..(NU - 1), j \in 0..(NV - 1)}
         /\ con \in [s : ListsOf(NU), n : ListsOf(NU), w : ListsOf(NV), e : ListsOf(NV)]
Dist(a, b) == IF a < b THEN b - a ELSE a - b
Closest_(L, x) == CHOOSE a \in L : \A b \in L : Dist(a * E, x) < Dist(b * E, x) \/ (Dist(a * E, x) = Dist(b * E, x) /\ a <= b)
(* only vertices of the grid move: halves of a constrained side do not occur *)
OnGrid(p) == p[1] % E = 0 /\ p[2] % E = 0
Home(p) ==
  IF ~OnGrid(p) THEN p
  ELSE IF p[2] = 0 /\ con.s # None_ THEN <<Closest_(con.s, p[1]) * E, p[2]>>
  ELSE IF p[2] = NV * E /\ con.n # None_ THEN <<Closest_(con.n, p[1]) * E, p[2]>>
  ELSE IF p[1] = 0 /\ con.w # None_ THEN <<p[1], Closest_(con.w, p[2]) * E>>
  ELSE IF p[1] = NU * E /\ con.e # None_ THEN <<p[1], Closest_(con.e, p[2]) * E>>
  ELSE p
Corners(c) == <<<<c.x, c.y>>, <<c.x + c.w, c.y>>, <<c.x + c.w, c.y + c.h>>, <<c.x, c.y + c.h>>>>
Held(c, lo, hi, a, n, A, B) == (lo = 0 /\ A # None_) \/ (hi = n * E /\ B # None_)
Moves(c) == \E i \in 1..4 : Home(Corners(c)[i]) # Corners(c)[i]
MayU(c) == ~Held(c, c.y, c.y + c.h, c, NV, con.s, con.n) /\ (Guarded => ~Moves(c))   \* halves the sides along u
MayV(c) == ~Held(c, c.x, c.x + c.w, c, NU, con.w, con.e) /\ (Guarded => ~Moves(c))
HalveU(c) == LET k == c.w \div 2 IN {Cell(c.x, c.y, k, c.h, c.d + 1), Cell(c.x + k, c.y, k, c.h, c.d + 1)}
HalveV(c) == LET k == c.h \div 2 IN {Cell(c.x, c.y, c.w, k, c.d + 1), Cell(c.x, c.y + k, c.w, k, c.d + 1)}
ANext == \E c \in cells :
           /\ c.d < Depth
           /\ \/ MayU(c) /\ cells' = (cells \ {c}) \cup HalveU(c)
              \/ MayV(c) /\ cells' = (cells \ {c}) \cup HalveV(c)
           /\ UNCHANGED con

-----------------------------------------------------------------------------
(* the mesh of the cells *)
Between(p, a, b) == \/ a[1] = b[1] /\ p[1] = a[1] /\ (a[2] < p[2]) = (p[2] < b[2]) /\ p[2] # a[2] /\ p[2] # b[2]
                    \/ a[2] = b[2] /\ p[2] = a[2] /\ (a[1] < p[1]) = (p[1] < b[1]) /\ p[1] # a[1] /\ p[1] # b[1]
All == UNION {{Corners(c)[i] : i \in 1..4} : c \in cells}
SideOf_(a, b) == LET S == {p \in All : Between(p, a, b)} IN <<a>> \o SetToSortSeq(S, LAMBDA p, q : Dist(p[1], a[1]) + Dist(p[2], a[2]) < Dist(q[1], a[1]) + Dist(q[2], a[2]))
Turns_(a, b, c) == (b[1] - a[1]) * ((c[2] - b[2]) \div 840) - (b[2] - a[2]) * ((c[1] - b[1]) \div 840)
Mean(s) == LET n == Len(s) IN <<FoldLeft(LAMBDA x, p : x + p[1], 0, s) \div n, FoldLeft(LAMBDA x, p : x + p[2], 0, s) \div n>>
Fan(o, s) == [i \in 1..Len(s) |-> <<o, s[IF i = 1 THEN Len(s) ELSE i - 1], s[i]>>]
Faces(c) ==
  LET k == Corners(c)
      side == [i \in 1..4 |-> SideOf_(k[i], k[(i % 4) + 1])]
      s == side[1] \o side[2] \o side[3] \o side[4]
      p == [i \in 1..Len(s) |-> Home(s[i])]
      m == 1 + (CHOOSE i \in 1..5 : i = 5 \/ (Len(side[i]) = 2 /\ \A j \in 1..(i - 1) : Len(side[j]) # 2))
      At5(j) == p[((m + j - 1) % 5) + 1]
  IN  CASE Len(s) = 4 -> IF Turns_(p[2], p[3], p[4]) < 0 \/ Turns_(p[4], p[1], p[2]) < 0
                         THEN <<<<p[1], p[2], p[3]>>, <<p[1], p[3], p[4]>>>> ELSE <<<<p[1], p[2], p[4]>>, <<p[4], p[2], p[3]>>>>
        [] Len(s) = 5 -> <<<<At5(0), At5(1), At5(2)>>, <<At5(0), At5(3), At5(4)>>, <<At5(0), At5(2), At5(3)>>>>
        [] OTHER -> Fan(IF con = [s |-> {}, n |-> {}, w |-> {}, e |-> {}] THEN <<c.x + c.w \div 2, c.y + c.h \div 2>> ELSE Mean(p), p)
Triangles == LET s == SetToSeq(cells) IN FlattenSeq([i \in 1..Len(s) |-> Faces(s[i])])
Ranked(T) ==
  LET V_ == {T[i][k] : i \in 1..Len(T), k \in 1..3}
      X == SetToSortSeq({p[1] : p \in V_}, <)  Y == SetToSortSeq({p[2] : p \in V_}, <)
      W == SetToSeq(V_)
      At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
  IN  [us |-> [i \in 1..Len(X) |-> RI(X[i])], vs |-> [i \in 1..Len(Y) |-> RI(Y[i])],
       uv |-> [i \in 1..Len(W) |-> <<At(X, W[i][1]), At(Y, W[i][2])>>],
       f |-> [i \in 1..Len(T) |-> <<At(W, T[i][1]), At(W, T[i][2]), At(W, T[i][3])>>], w |-> W]
(* a constrained side has exactly its parameters *)
Kept_(W, axis, at, L) == L # None_ => {p[axis] : p \in {q \in {W[i] : i \in 1..Len(W)} : q[3 - axis] = at}} = {a * E : a \in L}
TilingInv == Tiling(Ranked(Triangles)) = "ok"
SidesInv == LET W == Ranked(Triangles).w IN
              Kept_(W, 1, 0, con.s) /\ Kept_(W, 1, NV * E, con.n) /\ Kept_(W, 2, 0, con.w) /\ Kept_(W, 2, NU * E, con.e)
=============================================================================

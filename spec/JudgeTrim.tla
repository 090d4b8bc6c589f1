----------------------------- MODULE JudgeTrim -----------------------------
(* Meshes of trimmed surfaces and regions.  r.s is the behaviour, r.loops the *)
(* vertices on each loop with their parameters there, in order               *)
EXTENDS Mesh, Tensor, Judge
Curves(b) == b.now.ext \o b.now.holes
Marks_(b) == IF b.now.ext = <<>> THEN b.how.ch ELSE <<b.how.ce>> \o b.how.ch
Pos(m, l) == [i \in 1..Len(l) |-> m.uv[l[i][2]]]
Chain(P) == {<<P[i], P[i + 1]>> : i \in 1..(Len(P) - 1)}
Turned(E) == {<<e[2], e[1]>> : e \in E}
Place(m, p) == <<m.us[p[1]], m.vs[p[2]]>>
Fan(m, P) == LET q == [i \in 1..Len(P) |-> Place(m, P[i])] IN SumUpto([i \in 1..(Len(P) - 1) |-> Area2(q[1], q[i], q[i + 1])], 1, Len(P) - 1)
Dist2(x, y) == LET d == VSub(x, y) IN VDot(d, d)
Near3(x, y) == Lt(Dist2(x, y), RMul(RQ(1, 100000000), RAdd(One, VDot(y, y))))
Fine_ == RQ(1, 1073741824)
Tol(b) == IF b.how.way = "plain" THEN IF b.kind = "region" THEN RQ(1, 1000) ELSE RQ(1, 100) ELSE b.how.tol
(* chords: how far the points between may be off                              *)
Off(b, a, z, x) == LET k == Area2(a, z, x)  l == Dist2(a, z) IN
  IF b.kind = "region" THEN Le(RMul(k, k), RMul(RI(16), RMul(Tol(b), Tol(b))))
  ELSE Le(RMul(RI(4), RMul(k, k)), RMul(Tol(b), RMul(l, l)))
Flat1(c, a, z, x) == LET k == Area2(a, z, x) IN Le(RMul(k, k), RMul(Dist2(a, z), RQ(1, 1073741824)))
Between2(l, i, k) == RLerp(l[i][1], l[i + 1][1], RQ(k, 4))
(* a vertex is on the curve, or on the chord between its neighbours           *)
OnLoop(r, c, l, P, i) ==
  LET x == Place(r, P[i])  n == Len(l) IN
  \/ Lt(Dist2(x, Point(c, l[i][1])), Fine_)
  \/ c.p > 1 /\ i > 1 /\ i < n /\ Flat1(c, Place(r, P[i - 1]), Place(r, P[i + 1]), x) /\ Off(r.s, Place(r, P[i - 1]), Place(r, P[i + 1]), Point(c, l[i][1]))
(* a vertex on the side of the grid, where triangles may have no area         *)
OnRim(r, x) == \E i \in 1..Len(r.uv) : (r.uv[i][1] \in {1, Len(r.us)} \/ r.uv[i][2] \in {1, Len(r.vs)}) /\ Lt(Dist2(Place(r, r.uv[i]), x), Fine_)
LoopVerdict(r, c, l, marks) ==
  LET P == TLCEval(Pos(r, l))  n == Len(l) IN
  IF n < 3 THEN "a loop has no boundary"
  ELSE IF ~(\A i \in 1..(n - 1) : Lt(l[i][1], l[i + 1][1])) \/ P[1] # P[n] \/ ~Close_(l[1][1], DomLo(c), Tiny) \/ ~Close_(l[n][1], DomHi(c), Tiny) THEN "the boundary does not follow the loop"
  ELSE IF \E i \in 1..n : ~OnLoop(r, c, l, P, i) THEN "a boundary vertex is not on its loop"
  ELSE IF marks = <<>> /\ (\E i \in 1..(n - 1) : \E k \in 1..3 : LET x == Point(c, Between2(l, i, k)) IN
            ~(IF c.p = 1 THEN Flat1(c, Place(r, P[i]), Place(r, P[i + 1]), x) ELSE Off(r.s, Place(r, P[i]), Place(r, P[i + 1]), x))) THEN "the boundary leaves the loop"
  ELSE IF \E j \in 1..Len(marks) : ~(\E i \in 1..n : Close_(l[i][1], marks[j], Tiny)) /\ ~OnRim(r, Point(c, marks[j])) THEN "a constrained parameter is not a vertex"
  ELSE IF marks # <<>> /\ c.p > 1 /\ \E i \in 1..n : ~(\E j \in 1..Len(marks) : Close_(l[i][1], marks[j], Tiny)) THEN "a vertex of a constrained loop is not one of its parameters"
  ELSE "ok"
(* The boundary may run along a straight line in other steps than the loops   *)
(* do: rounded, triangles along it have (almost) no area.  The difference,    *)
(* f(e) times the edges e, must vanish on every piece of every line           *)
Smaller(x) == LET k == RMul(RI(65536), RI(1048576)) IN Lt(RMul(x, k), One) /\ Lt(RNeg(One), RMul(x, k))
Along(r, e, d) == \A i \in {1, 2} : Smaller(Area2(Place(r, e[1]), Place(r, e[2]), Place(r, d[i])))
Wide(r, e) == LET d == VSub(Place(r, e[2]), Place(r, e[1])) IN IF Lt(RMul(d[1], d[1]), RMul(d[2], d[2])) THEN 2 ELSE 1
RECURSIVE SumI(_, _, _)
SumI(D, f, w) == IF D = {} THEN 0 ELSE LET e == CHOOSE e \in D : TRUE IN (IF e[1][w] < e[2][w] THEN f[e] ELSE -f[e]) + SumI(D \ {e}, f, w)
Spanning(e, w, x) == (e[1][w] <= x /\ x < e[2][w]) \/ (e[2][w] <= x /\ x < e[1][w])
RECURSIVE SameLines(_, _, _)
SameLines(D, f, r) ==
  IF D = {} THEN TRUE
  ELSE LET L == TLCEval([d \in D |-> Dist2(Place(r, d[1]), Place(r, d[2]))])
           e == CHOOSE e \in D : \A d \in D : ~Lt(L[e], L[d])
           G == TLCEval({d \in D : Along(r, e, d)})
           w == Wide(r, e)
       IN  /\ \A d \in G : \A i \in {1, 2} : SumI({g \in G : Spanning(g, w, d[i][w])}, f, w) = 0
           /\ SameLines(D \ G, f, r)
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN "ok" ELSE IF s[1] # "ok" THEN s[1] ELSE FirstBad(Tail(s))
Within(x, lo, hi) == IF Lt(x, lo) THEN lo ELSE IF Lt(hi, x) THEN hi ELSE x
SPointW(s, u, v) == SPoint(s, Within(u, SLoU(s), SHiU(s)), Within(v, SLoV(s), SHiV(s)))
TrimVerdict(r) ==
  LET b == r.s  C == Curves(b)  n == Len(C)  h == Len(b.now.holes)
      F == TLCEval(Kept(r))
      A == TLCEval([k \in 1..Len(F) |-> FaceArea(r, F[k])])
      E == TLCEval(Directed(r, F))
      ps == TLCEval([i \in 1..n |-> Pos(r, r.loops[i])])
      ar == TLCEval([i \in 1..n |-> Fan(r, ps[i])])
      \* the exterior runs round with its inside on the left, holes the other way
      ch == TLCEval(UNION {IF Lt(Zero, ar[i]) = (b.now.ext # <<>> /\ i = 1) THEN Chain(ps[i]) ELSE Turned(Chain(ps[i])) : i \in 1..n})
      abs(x) == IF Lt(x, Zero) THEN RNeg(x) ELSE x
      whole == IF b.now.ext = <<>> THEN RMul(RI(2), RMul(Span_(r.us), Span_(r.vs))) ELSE abs(ar[1])
      want == RSub(whole, SumUpto([i \in 1..h |-> abs(ar[n - h + i])], 1, h))
      B == TLCEval({e \in Unpaired(r, F, E) : ~(b.now.ext = <<>> /\ OnSide(r, e))})
      once == Cardinality(E) = 3 * Len(F)
      net(e) == IF once THEN 1 ELSE Count(r, F, e) - Count(r, F, <<e[2], e[1]>>)
      Up == IF once THEN B ELSE {e \in B : net(e) > 0}
      Odd == TLCEval((Up \ ch) \cup (ch \ Up) \cup (IF once THEN {} ELSE {e \in Up : net(e) > 1}))
      v == TLCEval([i \in 1..n |-> LoopVerdict(r, C[i], r.loops[i], IF b.how.con THEN Marks_(b)[i] ELSE <<>>)])
  IN  IF ~Rising(r.us) \/ ~Rising(r.vs) THEN "coordinates"
      ELSE IF \E k \in 1..Len(A) : Lt(A[k], RNeg(Fine_)) THEN "a triangle runs the wrong way round"
      ELSE IF b.now.ext = <<>> /\ (~Spans(r.us, SLoU(b.now.s), SHiU(b.now.s)) \/ ~Spans(r.vs, SLoV(b.now.s), SHiV(b.now.s))) THEN "the mesh does not span the domain"
      ELSE IF FirstBad(v) # "ok" THEN FirstBad(v)
      ELSE IF B # ch /\ ~SameLines(Odd, TLCEval([e \in Odd |-> (IF e \in B THEN net(e) ELSE 0) - (IF e \in ch THEN 1 ELSE 0)]), r) THEN IF B \subseteq ch THEN "the mesh is not bounded by a loop" ELSE "the mesh has a boundary off the loops"
      ELSE IF ~Close_(SumUpto(A, 1, Len(A)), want, RQ(1, 1048576)) THEN "the triangles do not cover the kept part once"
      ELSE IF b.kind # "region" /\ \E i \in 1..Len(r.see) : ~Near3(r.see[i][3], SPointW(b.now.s, r.see[i][1], r.see[i][2])) THEN "a vertex is not the point at its parameters"
      ELSE "ok"
=============================================================================

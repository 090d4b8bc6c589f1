----------------------------- MODULE JudgeMesh -----------------------------
(* Meshes of whole surfaces: r.s is the behaviour, r.base the grid lines of   *)
(* the mesh of depth 0, r.see some vertices with their points                 *)
EXTENDS Mesh, Tensor, Judge
(* the coordinates of the vertices on a side: axis 1 for u, along the line at position k of the other *)
SideOf(m, axis, k) == {m.uv[i][axis] : i \in {j \in 1..Len(m.uv) : m.uv[j][3 - axis] = k}}
Marked(m, axis, k, list) == LET S == SideOf(m, axis, k)  g == IF axis = 1 THEN m.us ELSE m.vs IN
  \A i \in 1..Len(list) : \E x \in S : Close_(g[x], list[i], Tiny)
NoMore(m, axis, k, list) == LET S == SideOf(m, axis, k)  g == IF axis = 1 THEN m.us ELSE m.vs IN
  \A x \in S : \E i \in 1..Len(list) : Close_(g[x], list[i], Tiny)
Near3(x, y) == LET d == VSub(x, y) IN Lt(VDot(d, d), RMul(RQ(1, 100000000), RAdd(One, VDot(y, y))))
MeshVerdict(r) ==
  LET s == r.s.s  h == r.s.how  t == Tiling(r)
      sides == << <<1, 1, h.cu[1]>>, <<1, Len(r.vs), h.cu[2]>>, <<2, 1, h.cv[1]>>, <<2, Len(r.us), h.cv[2]>> >>
  IN  IF ~Spans(r.us, SLoU(s), SHiU(s)) \/ ~Spans(r.vs, SLoV(s), SHiV(s)) THEN "the mesh does not span the domain"
      ELSE IF t # "ok" THEN t
      ELSE IF \E i \in 1..Len(r.see) : ~Near3(r.see[i][3], SPoint(s, r.see[i][1], r.see[i][2])) THEN "a vertex is not the point at its parameters"
      ELSE IF h.way = "regular" THEN IF Len(r.f) = 2 * h.du * h.dv /\ Len(r.us) = h.du + 1 /\ Len(r.vs) = h.dv + 1 THEN "ok" ELSE "divisions"
      ELSE IF h.con /\ \E i \in 1..4 : ~Marked(r, sides[i][1], sides[i][2], sides[i][3]) THEN "a constrained parameter is not a vertex of its side"
      ELSE IF h.con /\ \E i \in 1..4 : sides[i][3] # <<>> /\ ~NoMore(r, sides[i][1], sides[i][2], sides[i][3]) THEN "a vertex of a constrained side is not one of its parameters"
      ELSE IF h.way = "plain" THEN "ok"
      ELSE IF ~h.con /\ (~Dyadic(r.us, r.base[1], h.max + 1) \/ ~Dyadic(r.vs, r.base[2], h.max + 1)) THEN "deeper than asked for"
      ELSE IF ~h.con /\ \E k \in 1..Len(r.f) : ~FineEnough(r, r.base[1], r.base[2], h.min, r.f[k]) THEN "not as deep as asked for"
      ELSE IF (s.p > 1 /\ Len(r.base[1]) <= h.du) \/ (s.q > 1 /\ Len(r.base[2]) <= h.dv) THEN "fewer divisions than asked for"
      ELSE IF ~h.con /\ ~Smooth(r, r.base[1], r.base[2], h.max) THEN "an edge between differing normals is left undivided"
      ELSE "ok"
=============================================================================

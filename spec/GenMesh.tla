------------------------------ MODULE GenMesh ------------------------------
(* Random surfaces with ways of tessellating them *)
EXTENDS GenSurface, Solids, Zoom
CONSTANTS MaxSpans, Sorts, MaxDepth
VARIABLES sf, how
mvars == <<gvars, sf, how>>
MInit == GInit /\ sf = NoOp /\ how = NoOp
MShape == /\ phase = "new" /\ shape = NoOp
          /\ shape' = [RndShape(phase) EXCEPT !.ku = RndInt(1, MaxSpans, phase), !.kv = RndInt(1, MaxSpans, phase)]
          /\ UNCHANGED <<vars, sf, how>>
MBase == (GCreate \/ GChoose \/ GApply) /\ UNCHANGED <<sf, how>>
Grown == phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1

(* mostly level graphs with a few bumps: cells of different depth side by side *)
RndBumps(st) ==
  LET p == RndInt(1, MaxDeg, st)  q == RndInt(1, MaxDeg, st)  k == RndInt(2, 5, st)
      U == TLCEval(CKnots(p, RndInt(1, MaxSpans, st), st))  V == TLCEval(CKnots(q, RndInt(1, MaxSpans, st), st))
      F == TLCEval([i \in 1..(Len(U) - p - 1) |-> TLCEval([j \in 1..(Len(V) - q - 1) |-> IF RndInt(1, k, st) = 1 THEN RI(RndInt(-6, 6, st)) ELSE Zero])])
  IN  [kind |-> "bumps", s |-> GraphOf(p, q, U, V, F)]
MSurface ==
  /\ Grown /\ sf = NoOp
  /\ \E k \in {RndSeq(Sorts, hist)} :
     \E x \in {TLCEval(CASE k = "bumps" -> RndBumps(hist) [] k = "ball" -> RndBall(hist) [] k = "cone" -> RndCone(hist)
                         [] k = "torus" -> RndTorus(hist) [] OTHER -> [kind |-> "spline", s |-> cur])} :
     \E t \in {RndInt(1, 3, hist)} :
        sf' = [kind |-> x.kind, s |-> IF t = 1 THEN Swap(x.s) ELSE x.s]
  /\ UNCHANGED <<gvars, how>>

(* increasing parameters from one end of a domain to the other *)
Marks(lo, hi, st) ==
  LET n == RndOf({7, 12, 16, 30}, st)
      on == TLCEval([i \in 1..(n - 1) |-> RndInt(1, 4, st) = 1])
  IN  <<lo>> \o [j \in 1..Cardinality({i \in 1..(n - 1) : on[i]}) |->
                   RLerp(lo, hi, RQ(CHOOSE i \in 1..(n - 1) : on[i] /\ Cardinality({k \in 1..i : on[k]}) = j, n))] \o <<hi>>
Maybe(on, m) == IF on THEN m ELSE <<>>
RndWay(s, st) ==
  LET k == RndInt(1, 8, st)  lo == RndInt(0, 2, st)  hi == lo + RndInt(0, MaxDepth - lo, st)
      c == RndInt(1, 3, st) = 1
      on(i) == c /\ RndInt(1, 2, i + Len(st)) = 1
  IN  [way |-> IF k = 1 THEN "plain" ELSE IF k = 2 THEN "regular" ELSE "adaptive",
       tol |-> RndOf({RQ(1, 1000), RQ(1, 40), RQ(1, 4), RQ(3, 2)}, st), min |-> IF RndInt(1, 3, st) = 1 THEN lo ELSE 0, max |-> hi,
       du |-> RndInt(1, 6, st), dv |-> RndInt(1, 6, st), con |-> c,
       cu |-> <<Maybe(on(1), TLCEval(Marks(SLoU(s), SHiU(s), st))), Maybe(on(2), TLCEval(Marks(SLoU(s), SHiU(s), st)))>>,
       cv |-> <<Maybe(on(3), TLCEval(Marks(SLoV(s), SHiV(s), st))), Maybe(on(4), TLCEval(Marks(SLoV(s), SHiV(s), st)))>>]
MWay == /\ sf # NoOp /\ how = NoOp /\ how' = TLCEval(RndWay(sf.s, hist)) /\ UNCHANGED <<gvars, sf>>
MeshSizes == <<One, One, One, RQ(1, 64), RI(64)>>
MeshPaces == <<One, One, One, RQ(1, 64), RI(64), RI(1024)>>
MEmit == /\ phase = "run" /\ how # NoOp
         /\ \E z \in {TLCEval(RndZoomOf(MeshSizes, MeshPaces, hist))} :
              PrintT(ToJson([m |-> "mesh", kind |-> sf.kind, s |-> ZoomS(sf.s, z.g, z.fa, z.fb), zoom |-> z,
                             how |-> [how EXCEPT !.cu = <<ZoomU(how.cu[1], z.fa), ZoomU(how.cu[2], z.fa)>>, !.cv = <<ZoomU(how.cv[1], z.fb), ZoomU(how.cv[2], z.fb)>>]]))
         /\ phase' = "done" /\ UNCHANGED <<cur, ghost, pend, hist, shape, sf, how>>
MNext == MShape \/ MBase \/ MSurface \/ MWay \/ MEmit
MarksInv == how # NoOp => \A c \in {how.cu[1], how.cu[2], how.cv[1], how.cv[2]} : \A i \in 1..(Len(c) - 1) : Lt(c[i], c[i + 1])
=============================================================================

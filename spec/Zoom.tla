-------------------------------- MODULE Zoom --------------------------------
(***************************************************************************)
(* The same scene at another size, and its curves at another pace: lengths  *)
(* are multiplied by g, parameters by f.  What crosses, encloses or is      *)
(* nearest does not depend on either.                                       *)
(***************************************************************************)
EXTENDS Bspline, Rnd
Sizes == <<One, One, One, RQ(1, 8), RI(8), RI(64)>>
Paces == <<One, One, One, RQ(1, 64), RI(64)>>
RndZoomOf(G, F, st) == [g |-> RndSeq(G, st), fa |-> RndSeq(F, st), fb |-> RndSeq(F, <<st>>), fc |-> RndSeq(F, <<st, st>>)]
RndZoom(st) == RndZoomOf(Sizes, Paces, st)
ZoomH(h, g) == [i \in 1..Len(h) |-> IF i < Len(h) THEN RMul(g, h[i]) ELSE h[i]]
ZoomC(c, g, f) == [c EXCEPT !.U = [i \in 1..Len(c.U) |-> RMul(f, c.U[i])], !.P = [i \in 1..Len(c.P) |-> ZoomH(c.P[i], g)]]
ZoomS(s, g, fu, fv) == [s EXCEPT !.U = [i \in 1..Len(s.U) |-> RMul(fu, s.U[i])], !.V = [i \in 1..Len(s.V) |-> RMul(fv, s.V[i])],
                                 !.P = [i \in 1..Len(s.P) |-> [j \in 1..Len(s.P[1]) |-> ZoomH(s.P[i][j], g)]]]
ZoomU(us, f) == [i \in 1..Len(us) |-> RMul(f, us[i])]
=============================================================================

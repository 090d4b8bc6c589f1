----------------------------- MODULE GenClosest -----------------------------
EXTENDS GenCurve, Closest, Zoom
CONSTANTS Queries, Fine
VARIABLE qs
(* where queries come from: points of the curve, offsets along a normal,      *)
(* beyond the ends, around a break or a control point, anywhere              *)
QKinds == <<"on", "normal", "normal", "end", "break", "control", "any">>
Jit(d, k, st) == TLCEval([i \in 1..d |-> RQ(RndInt(-7, 7, st), k)])
MkQuery(kind, st) ==
  LET C == Cands(cur)
      u == RndSeq(C, st)
      d == Dim(cur) - 1
      B == Breaks(cur)
      x == CASE kind = "on" -> Point(cur, u)
             [] kind = "normal" -> VAdd(Point(cur, u), VScale(Perp(Der1(cur, u)), RQ(RndInt(-6, 6, st), 16)))
             [] kind = "end" -> LET e == RndSeq(<<DomLo(cur), DomHi(cur)>>, st) IN VAdd(Point(cur, e), Jit(d, 2, st))
             [] kind = "break" -> VAdd(Point(cur, RndSeq(B, st)), Jit(d, 4, st))
             [] kind = "control" -> VAdd(Dehom(RndSeq(cur.P, st)), Jit(d, 3, st))
             [] OTHER -> TLCEval([i \in 1..d |-> RI(RndInt(-15, 15, st))])
  IN  [kind |-> kind, u |-> u, x |-> x]
Answer(q) == LET us == Grid(Breaks(cur), Fine, 1) \o <<q.u>>
                 b == Near2(cur, q.x, us)
             IN  [kind |-> q.kind, x |-> q.x, exact |-> cur.p = 1, b |-> IF cur.p = 1 THEN Poly2(cur, q.x) ELSE b]
(* the exact distance to a polyline is not more than that to any of its points *)
AnswerInv == \A i \in 1..Len(qs) : qs[i].exact => Le(qs[i].b, Near2(cur, qs[i].x, Grid(Breaks(cur), 8, 1)))
QInit == GInit /\ qs = <<>>
QAsk == /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1 /\ Len(qs) < Queries
        /\ \E kind \in {RndSeq(QKinds, qs)} : \E q \in {MkQuery(kind, qs)} : \E a \in {Answer(q)} : qs' = Append(qs, a)
        /\ UNCHANGED <<vars, shape>>
QEmit == /\ phase = "run" /\ Len(qs) = Queries
         /\ \E z \in {TLCEval(RndZoom(qs))} :
              PrintT(ToJson([m |-> "closest", c |-> ZoomC(cur, z.g, z.fa), zoom |-> z, ops |-> [i \in 1..Len(hist) |-> hist[i].op],
                             qs |-> [i \in 1..Len(qs) |-> [qs[i] EXCEPT !.x = VScale(qs[i].x, z.g), !.b = RMul(RMul(z.g, z.g), qs[i].b)]]]))
         /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, qs>>
QNext == ((GShape \/ GCreate \/ GChoose \/ GApply) /\ UNCHANGED qs) \/ QAsk \/ QEmit
=============================================================================

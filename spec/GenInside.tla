---------------------------- MODULE GenInside ----------------------------
(* Simple closed curves, what is done to them, and points to locate *)
EXTENDS Loops, Zoom
CONSTANTS Queries
VARIABLES loop, qs
ivars == <<vars, shape, loop, qs>>
QKinds == <<"any", "any", "level", "level", "level", "upright", "on", "vertex", "normal", "normal", "far">>
Half2(n, st) == RQ(RndInt(-n, n, st), 2)
(* notable points: breaks and control points *)
Notable(c) == LET B == Breaks(c) IN [i \in 1..Len(B) |-> Point(c, B[i])] \o [i \in 1..N(c) |-> Dehom(c.P[i])]
MkQuery(k, st) ==
  LET u == RndSeq(Cands(cur), st)
      v == RndSeq(TLCEval(Notable(cur)), st)
      x == CASE k = "any" -> VAdd(loop.o, <<Half2(14, st), Half2(14, st)>>)
             [] k = "level" -> <<RAdd(v[1], RQ(RndInt(-40, 40, st), 4)), v[2]>>
             [] k = "upright" -> <<v[1], RAdd(v[2], RQ(RndInt(-40, 40, st), 4))>>
             [] k = "on" -> Point(cur, u)
             [] k = "vertex" -> Point(cur, RndSeq(Breaks(cur), st))
             [] k = "normal" -> LET d == Der1(cur, u)  n == <<RNeg(d[2]), d[1]>> IN
                                VAdd(Point(cur, u), VScale(n, RMul(RDiv(One, RAdd(L1(n), RQ(1, 100))), RQ(RndSeq(<<-3, -1, 1, 3>>, st), 10))))
             [] OTHER -> VAdd(loop.o, <<RI(RndSeq(<<-900, 800, 3>>, st)), RI(RndSeq(<<700, -1000>>, st))>>)
  IN  [kind |-> k, x |-> x]
Answer(q) == [kind |-> q.kind, x |-> q.x, in |-> IF q.kind \in {"on", "vertex"} THEN 1 ELSE Within(cur, q.x)]

IInit == GInit /\ loop = NoOp /\ qs = <<>>
IShape == phase = "new" /\ loop = NoOp /\ UNCHANGED <<vars, shape, qs>>
          /\ \E k \in {RndSeq(LoopKinds, phase)}, o \in {<<RI(RndInt(-5, 5, phase)), RI(RndInt(-5, 5, phase))>>}, sc \in {RQ(RndInt(1, 4, phase), 2)} :
             loop' = RndLoop(k, o, sc, phase)
(* some stay open: a span is cut off *)
ICreate == /\ phase = "new" /\ loop # NoOp /\ loop.ok
           /\ \E rs \in {RndInts(3, phase)} : Create(loop.c, rs)
           /\ UNCHANGED <<shape, loop, qs>>
IRetry == phase = "new" /\ loop # NoOp /\ ~loop.ok /\ loop' = NoOp /\ UNCHANGED <<vars, shape, qs>>
(* reversed only in the parameter, mapped by an affine map *)
Centre(o) == IF pend.op = "transform" THEN MapP(pend.M, pend.t, o) ELSE o
IApply == GApply /\ loop' = [loop EXCEPT !.o = Centre(loop.o)] /\ UNCHANGED qs
ClosedNow == ClosedAt(cur)
IAsk == /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1 /\ Len(qs) < Queries
        /\ \E k \in {RndSeq(QKinds, qs)} : \E q \in {MkQuery(k, qs)} : \E a \in {Answer(q)} : qs' = Append(qs, a)
        /\ UNCHANGED <<vars, shape, loop>>
IEmit == /\ phase = "run" /\ Len(qs) = Queries
         /\ \E z \in {TLCEval(RndZoom(qs))} :
              PrintT(ToJson([m |-> "inside", c |-> ZoomC(cur, z.g, z.fa), kind |-> loop.kind, closed |-> ClosedNow, simple |-> TRUE, cuts |-> ZoomU(InnerCands(cur), z.fa), zoom |-> z,
                             ops |-> [i \in 1..Len(hist) |-> hist[i].op], qs |-> [i \in 1..Len(qs) |-> [qs[i] EXCEPT !.x = VScale(qs[i].x, z.g)]]]))
         /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, loop, qs>>
INext == IShape \/ ICreate \/ IRetry \/ (GChoose /\ UNCHANGED <<loop, qs>>) \/ IApply \/ IAsk \/ IEmit
(* the point the curve turns around is inside; far points are outside *)
CentreInv == (phase = "run" /\ qs = <<>> /\ loop.kind # "shape" /\ ClosedNow) => Within(cur, loop.o) = 1
FarInv == \A i \in 1..Len(qs) : qs[i].kind = "far" /\ ClosedNow => qs[i].in = 0
(* the ray does not matter *)
RayInv == (Len(qs) = Queries /\ ClosedNow) => \A i \in 1..2 : qs[i].kind \in {"on", "vertex"} \/
   LET r == InsideD(Beziers(cur), Breaks(cur), qs[i].x, <<RI(-5), RI(3)>>) IN r = -1 \/ qs[i].in = -1 \/ r = qs[i].in
=============================================================================

------------------------------ MODULE GenTrim ------------------------------
(* Random trimmed surfaces and regions with ways of tessellating them *)
EXTENDS Trim, Solids
CONSTANTS MaxHoles, MaxSteps, Sorts, Ways
VARIABLES loop, holes, tries, trimmed, steps, how, probes
tvars == <<vars, shape, loop, holes, tries, trimmed, steps, how, probes>>
still == UNCHANGED <<vars, shape>>
TInit == GInit /\ loop = NoOp /\ holes = <<>> /\ tries = 0 /\ trimmed = NoOp /\ steps = <<>> /\ how = NoOp /\ probes = <<>>
TExt ==
  /\ phase = "new" /\ loop = NoOp
  /\ \E l \in {RndLoop(RndSeq(LoopKinds, phase), <<RI(RndInt(-3, 3, phase)), RI(RndInt(-3, 3, phase))>>, RndOf({One, RQ(1, 2), RI(3)}, phase), phase)} :
        IF ~(l.ok) THEN UNCHANGED tvars
        ELSE \E n \in {RndInt(0, MaxHoles, phase)} : loop' = LoopOf(l) /\ tries' = 2 * n /\ still /\ UNCHANGED <<holes, trimmed, steps, how, probes>>
(* holes with room around them: so has the hole scaled by 3/2, about a point *)
(* that need not be in it                                               *)
Wide(l) == LoopOf([c |-> Transform(l.c, << <<RQ(3, 2), Zero>>, <<Zero, RQ(3, 2)>> >>, VScale(l.o, RQ(-1, 2))), o |-> l.o, kind |-> l.kind])
Fits(y, z) == Encloses(loop, y) /\ Encloses(loop, z) /\ \A i \in 1..Len(holes) : Separate(holes[i], y) /\ Separate(Wide(holes[i]), z)
THole ==
  /\ loop # NoOp /\ trimmed = NoOp /\ tries > 0
  /\ \E d \in {<<RQ(RndInt(-24, 24, holes), 8), RQ(RndInt(-24, 24, holes), 8)>>} :
     \E l \in {RndLoop(RndSeq(<<"star", "round", "periodic", "shape">>, tries), VAdd(loop.o, d), RQ(RndInt(1, 3, tries), 12), tries)} :
        LET miss == tries' = tries - 1 /\ UNCHANGED holes IN
        IF ~(l.ok) \/ l.c.p > 2 THEN miss
        ELSE \E y \in {LoopOf(l)} : IF Fits(y, Wide(y)) = FALSE THEN miss ELSE holes' = Append(holes, y) /\ tries' = tries - 1
  /\ still /\ UNCHANGED <<loop, trimmed, steps, how, probes>>

Grow(b, m) == << RSub(b[1], m), RAdd(b[2], m), RSub(b[3], m), RAdd(b[4], m) >>
RECURSIVE Hull(_, _, _)
Hull(b, ls, i) == IF i > Len(ls) THEN b ELSE LET c == ls[i].box IN
  Hull(<< Least(<<b[1], c[1]>>, 1), RNeg(Least(<<RNeg(b[2]), RNeg(c[2])>>, 1)), Least(<<b[3], c[3]>>, 1), RNeg(Least(<<RNeg(b[4]), RNeg(c[4])>>, 1)) >>, ls, i + 1)
RectOf(b, st) ==
  LET P == << <<b[1], b[3]>>, <<b[2], b[3]>>, <<b[2], b[4]>>, <<b[1], b[4]>> >>
      q == RotL(P, RndInt(0, 3, st))
  IN  LoopOf([c |-> PolyOf(IF RndInt(1, 2, st) = 1 THEN Rev(q) ELSE q), o |-> VScale(VAdd(P[1], P[3]), RQ(1, 2)), kind |-> "rect"])
BaseOf(k, b, st) ==
  CASE k = "flat" -> [kind |-> k, s |-> GraphOf(1, 1, <<b[1], b[1], b[2], b[2]>>, <<b[3], b[3], b[4], b[4]>>, << <<One, One>>, <<One, One>> >>)]
    [] k = "graph" -> LET x == RndGraph(3, st).s IN LET y == Cover(x, b) IN
         [kind |-> k, s |-> GraphOf(y.p, y.q, y.U, y.V, [i \in 1..Len(y.P) |-> [j \in 1..Len(y.P[1]) |-> y.P[i][j][3]]])]
    [] k = "ball" -> [kind |-> k, s |-> Cover(RndBall(st).s, b)]
    [] k = "cone" -> [kind |-> k, s |-> Cover(RndCone(st).s, b)]
    [] OTHER -> [kind |-> k, s |-> Cover(RndTorus(st).s, b)]
TSurface ==
  /\ loop # NoOp /\ tries = 0 /\ trimmed = NoOp
  /\ \E k \in {RndSeq(Sorts, holes)} : \E e \in {RndInt(1, 8, holes)} : \E m \in {RndOf({Zero, RQ(1, 4), One}, holes)} :
     \E b \in {TLCEval(Grow(Hull(loop.box, holes, 1), IF e <= 2 THEN RAdd(m, RQ(1, 4)) ELSE m))} :
     \E x \in {TLCEval(BaseOf(k, b, holes))} : \E r \in {TLCEval(RectOf(b, holes))} :
        LET ext == IF k = "region" THEN <<loop>> ELSE IF e = 1 THEN <<>> ELSE IF e = 2 THEN <<r>> ELSE <<loop>>
            cut == e \in {3, 4} /\ k # "region" /\ loop.c.p = 1
            from == IF k \in {"flat", "graph"} /\ e \in {2, 5} THEN "projected" ELSE IF k = "flat" /\ e = 6 THEN "mapped" ELSE "given"
        IN  trimmed' = TLCEval([kind |-> k, from |-> from, cut |-> cut, start |-> [s |-> x.s, ext |-> ext, holes |-> holes],
                                now |-> [s |-> x.s, ext |-> ext, holes |-> holes]])
  /\ still /\ UNCHANGED <<loop, holes, tries, steps, how, probes>>
(* parameters to watch: near the loops, and anywhere in the domain *)
RECURSIVE FoldPts(_, _)
FoldPts(ls, i) == IF i > Len(ls) THEN <<>> ELSE [j \in 1..(Len(ls[i].B) - 1) |-> Point(ls[i].c, ls[i].B[j])] \o FoldPts(ls, i + 1)
Edges(x) == FoldPts(x.ext \o x.holes, 1)
TProbe ==
  /\ trimmed # NoOp /\ probes = <<>>
  /\ \E W \in {TLCEval(IF trimmed.now.ext = <<>> /\ holes = <<>> THEN <<loop.o>> ELSE Edges(trimmed.now))} : \E D \in {Domain(trimmed.now.s)} :
     probes' = TLCEval([i \in 1..6 |-> LET w == IF i % 2 = 0 THEN VAdd(RndSeq(W, holes), <<RQ(RndInt(-9, 9, holes), 16), RQ(RndInt(-9, 9, holes), 17)>>)
                                               ELSE <<RLerp(D[1], D[2], RQ(RndInt(1, 30, holes), 31)), RLerp(D[3], D[4], RQ(RndInt(1, 28, holes), 29))>> IN
        [q0 |-> w, q |-> w, k |-> Kept(trimmed.now, w), x |-> IF OutOf(D, w) THEN <<>> ELSE SPoint(trimmed.now.s, w[1], w[2])]])
  /\ still /\ UNCHANGED <<loop, holes, tries, trimmed, steps, how>>
TStep ==
  /\ probes # <<>> /\ how = NoOp /\ Len(steps) < MaxSteps /\ trimmed.kind # "region"
  /\ \E o \in {IF RndInt(1, 2, steps) = 1 THEN [op |-> "invert"] ELSE [op |-> "transform", M |-> RndOf(Mats(3), steps), t |-> RndOf(Shifts(3), steps)]} :
        /\ trimmed' = TLCEval([trimmed EXCEPT !.now = TrimOp(o, trimmed.now)])
        /\ steps' = Append(steps, o)
        /\ probes' = IF o.op = "invert" THEN TLCEval([i \in 1..Len(probes) |-> [probes[i] EXCEPT !.q = Opposite(trimmed.now.s, probes[i].q)]])
                     ELSE TLCEval([i \in 1..Len(probes) |-> IF probes[i].x = <<>> THEN probes[i] ELSE [probes[i] EXCEPT !.x = MapP(o.M, o.t, probes[i].x)]])
  /\ still /\ UNCHANGED <<loop, holes, tries, how>>
Curved(x) == \E l \in {(x.ext \o x.holes)[i] : i \in 1..Len(x.ext \o x.holes)} : l.c.p > 1
(* the breaks of a loop and parameters between them *)
RECURSIVE Between_(_, _, _)
Between_(B, n, i) == IF i = Len(B) THEN <<B[i]>> ELSE [j \in 1..n[i] |-> RLerp(B[i], B[i + 1], RQ(j - 1, n[i]))] \o Between_(B, n, i + 1)
Marks(l, st) == Between_(l.B, TLCEval([i \in 1..(Len(l.B) - 1) |-> IF l.c.p = 1 THEN RndInt(1, 3, st) ELSE RndInt(9, 12, st)]), 1)
Maybe(l, st) == IF RndInt(1, 3, st) = 1 THEN <<>> ELSE TLCEval(Marks(l, st))
TWay ==
  /\ probes # <<>> /\ how = NoOp /\ (trimmed.kind = "region" \/ RndInt(1, 2, steps) = 1 \/ Len(steps) = MaxSteps) = TRUE
  /\ \E x \in {trimmed.now} : \E w \in {RndSeq(Ways, steps)} : \E lo \in {RndInt(0, 1, steps)} : \E hi \in {lo + RndInt(0, 2, steps)} :
     \E con \in {RndInt(1, 3, steps) = 1 /\ (\A i \in 1..Len(steps) : steps[i].op # "invert") /\ ~trimmed.cut /\ trimmed.kind # "region"} :
        how' = TLCEval([way |-> w, tol |-> IF trimmed.kind = "region" THEN RndOf({RQ(1, 1000), RQ(1, 100)}, steps)
                                           ELSE IF Curved(x) THEN RndOf({RQ(1, 1000), RQ(1, 100)}, steps) ELSE RndOf({RQ(1, 1000), RQ(1, 40), RQ(1, 4)}, steps),
                        min |-> lo, max |-> hi, du |-> RndInt(1, 4, steps), dv |-> RndInt(1, 4, steps), con |-> con,
                        ce |-> IF con /\ x.ext # <<>> THEN Maybe(x.ext[1], steps) ELSE <<>>,
                        ch |-> [i \in 1..Len(x.holes) |-> IF con THEN Maybe(x.holes[i], steps) ELSE <<>>]])
  /\ still /\ UNCHANGED <<loop, holes, tries, trimmed, steps, probes>>
ShowT(x) == [s |-> x.s, ext |-> [i \in 1..Len(x.ext) |-> x.ext[i].c], holes |-> [i \in 1..Len(x.holes) |-> x.holes[i].c]]
TEmit ==
  /\ phase = "new" /\ how # NoOp
  /\ PrintT(ToJson([m |-> "trim", kind |-> trimmed.kind, from |-> trimmed.from, cut |-> trimmed.cut, start |-> ShowT(trimmed.start), now |-> ShowT(trimmed.now),
                    breaks |-> [i \in 1..Len(trimmed.now.ext \o trimmed.now.holes) |-> (trimmed.now.ext \o trimmed.now.holes)[i].B],
                    cuts |-> IF trimmed.kind = "region" THEN InnerCands(loop.c) ELSE <<>>, steps |-> steps, how |-> how]))
  /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, loop, holes, tries, trimmed, steps, how, probes>>
TNext == TExt \/ THole \/ TSurface \/ TProbe \/ TStep \/ TWay \/ TEmit
-----------------------------------------------------------------------------
(* the operations keep the kept part, point by point *)
KeepInv == \A i \in 1..Len(probes) :
  /\ probes[i].k = Kept(trimmed.now, probes[i].q)
  /\ probes[i].x # <<>> => VEq(probes[i].x, SPoint(trimmed.now.s, probes[i].q[1], probes[i].q[2]))
(* the loops lie in the domain, and holes inside of the exterior *)
RoomInv == trimmed # NoOp => \A l \in {(trimmed.now.ext \o trimmed.now.holes)[i] : i \in 1..Len(trimmed.now.ext \o trimmed.now.holes)} :
  LET D == Domain(trimmed.now.s) IN Le(D[1], l.box[1]) /\ Le(l.box[2], D[2]) /\ Le(D[3], l.box[3]) /\ Le(l.box[4], D[4])
=============================================================================

---------------------------- MODULE GenRegion ----------------------------
(* Chains of set operations on random regions in general position *)
EXTENDS Region, Zoom
CONSTANTS MaxSteps, MaxHoles, Probes
VARIABLES regs, draft, hits, probes, now, steps
rvars == <<vars, shape, regs, draft, hits, probes, now, steps>>
keep == UNCHANGED <<vars, shape>>
Offs == <<0, 0, 1, -1, 2, -3, 4, -5, 6, -7, 9, 40>>
RInit == GInit /\ regs = <<>> /\ draft = NoOp /\ hits = <<>> /\ probes = <<>> /\ now = <<>> /\ steps = <<>>

(* an exterior: the first may be of any degree *)
NewLoop(n, st) ==
  LET k == RndSeq(LoopKinds, st)
      o == IF n = 0 THEN <<RI(RndInt(-2, 2, st)), RI(RndInt(-2, 2, st))>>
           ELSE <<RAdd(RI(RndSeq(Offs, st)), RQ(RndInt(1, 15, st), 16)), RAdd(RI(RndSeq(SubSeq(Offs, 1, 11), st)), RQ(RndInt(1, 15, st), 16))>>
      sc == IF n = 0 THEN RndOf({RI(1), RQ(1, 2)}, st) ELSE RndSeq(<<RI(1), RI(1), RQ(3, 4), RQ(1, 2), RQ(1, 4), RI(3)>>, st)
  IN  RndLoop(k, o, sc, st)
(* pairs of crossing points that nearly coincide are not generic either *)
Tight(a, b) == LET d == VSub(a.x, b.x) IN Lt(VDot(d, d), RQ(1, 16))
Loose(h) == \A i, j \in 1..Len(h) : i < j => ~Tight(h[i], h[j])
RECURSIVE FoldLoops(_, _)
FoldLoops(rs, i) == IF i > Len(rs) THEN <<>> ELSE LoopsOf(rs[i]) \o FoldLoops(rs, i + 1)
RECURSIVE FoldNotable(_, _)
FoldNotable(ls, i) == IF i > Len(ls) THEN <<>> ELSE [j \in 1..(Len(ls[i].B) - 1) |-> Point(ls[i].c, ls[i].B[j])] \o FoldNotable(ls, i + 1)
AllLoops == FoldLoops(regs, 1)
RECURSIVE CrossAll(_, _, _)
CrossAll(ls, y, i) ==
  IF i > Len(ls) THEN [fine |-> TRUE, r |-> <<>>]
  ELSE LET k == LoopCross(ls[i], y) IN
       IF (k.fine) = FALSE THEN k ELSE LET m == CrossAll(ls, y, i + 1) IN [fine |-> m.fine, r |-> k.r \o m.r]
RDraft ==
  /\ phase = "new" /\ draft = NoOp /\ Len(regs) <= MaxSteps
  /\ \E l \in {NewLoop(Len(regs), <<regs, draft>>)} :
       IF ~(l.ok) \/ (regs # <<>> /\ l.c.p > 2) THEN UNCHANGED rvars
       ELSE \E y \in {LoopOf(l)} : \E k \in {CrossAll(AllLoops, y, 1)} : \E n \in {RndInt(0, MaxHoles, regs)} :
            IF ~k.fine \/ ~Loose(hits \o k.r) \/ (regs # <<>> /\ k.r = <<>> /\ RndInt(1, 5, regs) > 1) THEN UNCHANGED rvars
            ELSE /\ draft' = [ext |-> y, holes |-> <<>>, want |-> n, tries |-> 0]
                 /\ hits' = hits \o k.r /\ keep /\ UNCHANGED <<regs, probes, now, steps>>
RHole ==
  /\ draft # NoOp /\ Len(draft.holes) < draft.want /\ draft.tries < 8
  /\ \E d \in {<<RQ(RndInt(-24, 24, draft), 8), RQ(RndInt(-24, 24, draft), 8)>>} :
     \E l \in {RndLoop(RndSeq(<<"star", "round", "periodic", "shape">>, draft), VAdd(draft.ext.o, d), RQ(RndInt(1, 3, draft), 12), draft)} :
       LET miss == draft' = [draft EXCEPT !.tries = draft.tries + 1] /\ UNCHANGED <<regs, hits, probes, now, steps>> /\ keep IN
       IF ~(l.ok) \/ l.c.p > 2 THEN miss
       ELSE \E y \in {LoopOf(l)} :
            IF (Encloses(draft.ext, y) /\ \A i \in 1..Len(draft.holes) : Separate(draft.holes[i], y)) = FALSE THEN miss
            ELSE \E k \in {CrossAll(AllLoops, y, 1)} :
                 IF ~k.fine \/ ~Loose(hits \o k.r) THEN miss
                 ELSE /\ draft' = [draft EXCEPT !.holes = Append(draft.holes, y), !.tries = draft.tries + 1]
                      /\ hits' = hits \o k.r /\ UNCHANGED <<regs, probes, now, steps>> /\ keep
RDone ==
  /\ draft # NoOp /\ (Len(draft.holes) = draft.want \/ draft.tries = 8)
  /\ regs' = Append(regs, [ext |-> draft.ext, holes |-> draft.holes])
  /\ draft' = NoOp /\ keep /\ UNCHANGED <<hits, probes, now, steps>>
(* probes: anywhere, and near crossings, vertices and knots *)
Near16(x, st) == VAdd(x, <<RQ(2 * RndInt(-10, 10, st) + 1, 16), RQ(2 * RndInt(-10, 10, st) + 1, 17)>>)
RProbe ==
  /\ Len(regs) = MaxSteps + 1 /\ probes = <<>>
  /\ \E W \in {TLCEval(FoldNotable(AllLoops, 1) \o [i \in 1..Len(hits) |-> hits[i].x] \o [i \in 1..Len(hits) |-> hits[i].x])} :
     \E P \in {TLCEval([i \in 1..Probes |-> IF i % 4 = 0 THEN <<RQ(2 * RndInt(-120, 120, regs) + 1, 16), RQ(2 * RndInt(-120, 120, regs) + 1, 17)>>
                                            ELSE Near16(RndSeq(W, regs), regs)])} :
        probes' = P /\ now' = TLCEval([i \in 1..Probes |-> InRegion(regs[1], P[i])])
  /\ keep /\ UNCHANGED <<regs, draft, hits, steps>>
RStep ==
  /\ probes # <<>> /\ Len(steps) < MaxSteps
  /\ \E op \in {RndSeq(<<"union", "intersection", "difference">>, steps)} :
     \E m \in {TLCEval([i \in 1..Probes |-> InRegion(regs[Len(steps) + 2], probes[i])])} :
       /\ now' = [i \in 1..Probes |-> SetOp(op, now[i], m[i])]
       /\ steps' = Append(steps, [op |-> op, was |-> now, b |-> m, e |-> [i \in 1..Probes |-> SetOp(op, now[i], m[i])]])
  /\ keep /\ UNCHANGED <<regs, draft, hits, probes>>
(* where an exterior may be cut into the spans of a compound curve: a joint  *)
(* at a crossing is not generic                                              *)
RECURSIVE OffHits(_, _, _)
OffHits(c, s, i) == IF i > Len(s) THEN <<>>
  ELSE LET x == Point(c, s[i]) IN
       (IF \A j \in 1..Len(hits) : LET d == VSub(x, hits[j].x) IN Lt(RQ(1, 64), VDot(d, d)) THEN <<s[i]>> ELSE <<>>) \o OffHits(c, s, i + 1)
Show(r, g, f, h) == [ext |-> ZoomC(r.ext.c, g, f), holes |-> [i \in 1..Len(r.holes) |-> ZoomC(r.holes[i].c, g, h)], kind |-> r.ext.kind,
                     cuts |-> ZoomU(OffHits(r.ext.c, InnerCands(r.ext.c), 1), f)]
REmit ==
  /\ phase = "new" /\ Len(steps) = MaxSteps
  /\ \E z \in {TLCEval(RndZoom(steps))} :
       PrintT(ToJson([m |-> "region", regs |-> [i \in 1..Len(regs) |-> Show(regs[i], z.g, IF i = 1 THEN z.fa ELSE z.fb, z.fc)], zoom |-> z,
                      probes |-> [i \in 1..Len(probes) |-> VScale(probes[i], z.g)], steps |-> steps, hits |-> Len(hits)]))
  /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, regs, draft, hits, probes, now, steps>>
RNext == RDraft \/ RHole \/ RDone \/ RProbe \/ RStep \/ REmit
(* closed curves cross an even number of times *)
EvenInv == Len(hits) % 2 = 0
(* the set operations are monotone and consistent *)
SetInv == \A s \in 1..Len(steps) : \A i \in 1..Len(probes) :
  LET a == steps[s].was[i]  b == steps[s].b[i]  u == SetOp("union", a, b)  n == SetOp("intersection", a, b) IN
  (a >= 0 /\ b >= 0) => /\ u + n = a + b /\ SetOp("difference", a, b) + n = a /\ u = SetOp("union", b, a)
=============================================================================

----------------------------- MODULE GenLength -----------------------------
EXTENDS Length
CONSTANT Ops
U2(a, b, c) == <<RQ(a, c), RQ(b, c)>>
Units == <<U2(1, 0, 1), U2(0, 1, 1), U2(-1, 0, 1), U2(3, 4, 5), U2(-4, 3, 5), U2(5, -12, 13), U2(8, 15, 17), U2(-24, -7, 25)>>
Halfs == << [h |-> U2(4, 3, 5), n |-> 4], [h |-> U2(12, 5, 13), n |-> 7], [h |-> U2(15, 8, 17), n |-> 6], [h |-> U2(99, 20, 101), n |-> 15], [h |-> U2(3, 4, 5), n |-> 3] >>
RECURSIVE Acc(_, _, _)
Acc(start, steps, n) == IF n = 0 THEN <<start>> ELSE LET r == Acc(start, steps, n - 1) IN Append(r, RAdd(Last_(r), steps[n]))
Breaks_(n, st) == Acc(RndOf({RI(0), RI(-2), RQ(3, 2)}, st), [i \in 1..n |-> RndOf({RI(1), RI(2), RQ(1, 2), RI(3)}, st)], n)
W(st) == IF RndInt(1, 3, st) = 1 THEN RndOf({RI(2), RI(3), RQ(1, 2)}, st) ELSE One
Out(B, st) == IF RndInt(1, 3, st) > 1 THEN <<B[1], Last_(B)>> ELSE <<RSub(B[1], RndOf({RI(0), RI(1), RQ(1, 2)}, st)), RAdd(Last_(B), RndOf({RI(1), RQ(3, 2)}, st))>>
Outer(p, st) == Acc(RndOf({RI(0), RI(1), RQ(1, 2)}, st), [i \in 1..(p - 1) |-> RndOf({RI(0), RI(1), RQ(3, 4)}, st)], p - 1)
(* unclamped versions whose weights stay positive *)
Variant(c, st) ==
  IF RndInt(1, 3, st) > 1 THEN c
  ELSE LET u == TLCEval(Unclamp(c, TLCEval(Outer(c.p, st)), TLCEval(Outer(c.p, st)))) IN IF Valid(u) THEN u ELSE c
Start(c, l, u, rs) == Create(c, rs) /\ alen' = l /\ lens' = <<l>> /\ unit' = u
GInit == /\ phase = "new" /\ cur = NoOp /\ ghost = <<>> /\ canon = TRUE /\ pend = NoOp /\ hist = <<>> /\ alen = <<>> /\ lens = <<>> /\ unit = <<>>
GPoly == \E n \in {RndInt(1, 5, phase)} : \E B \in {TLCEval(Breaks_(n, phase))}, w0 \in {W(phase)},
   legs \in {TLCEval([i \in 1..n |-> [d |-> RndSeq(Units, phase), l |-> RndOf({RI(1), RI(5), RQ(7, 2), RI(12)}, phase), w |-> W(phase)]])} :
   \E out \in {Out(B, phase)}, rs \in {<<1, 2>>} : Start(PolyCurve(V2(3, -2), w0, legs, B, out), PolyLen(w0, legs, B), <<>>, rs)
(* w stays away from zero: both ends in one half plane *)
Seg(st) == RndOf({[a |-> V2(a1, a2), b |-> V2(b1, b2)] : a1 \in 1..3, a2 \in -2..2, b1 \in 1..3, b2 \in -2..2}, st)
Quarter(g, k) == LET q == <<V2(1, 0), V2(0, 1), V2(-1, 0), V2(0, -1), V2(1, 1)>>[k] IN [a |-> CMul(q, g.a), b |-> CMul(q, g.b)]
GPH == \E n \in {RndInt(1, 3, phase)} : \E B \in {TLCEval(Breaks_(n, phase))},
   segs \in {TLCEval([i \in 1..n |-> Quarter(Seg(phase), RndInt(1, 5, phase))])} :
   \E c \in {Variant(TLCEval(PHCurve(V2(1, 1), segs, B)), phase)} : Start(c, PHLen(segs, B), <<>>, <<1, 2>>)
GCirc == \E hh \in {RndSeq(Halfs, phase)}, e0 \in {RndSeq(Units, phase)}, r \in {RndOf({RI(1), RI(7), RQ(9, 4)}, phase)} :
   \E m \in {RndInt(1, hh.n, phase)} : \E B \in {TLCEval(Breaks_(m, phase))} :
   \E c \in {Variant(TLCEval(CircCurve(V2(4, -3), r, e0, hh.h, m, B)), phase)} : Start(c, CircLen(r, m, B), hh.h, <<1, 2>>)
GChoose == /\ phase = "run" /\ pend = NoOp /\ Len(hist) <= MaxOps
           /\ \E op \in {RndSeq(Ops, hist)} : \E A \in {LArgs(op, cur, alen)} : IF A = {} THEN UNCHANGED vars ELSE Choose_(RndOf(A, hist))
           /\ UNCHANGED <<alen, lens, unit>>
GApply == /\ phase = "run" /\ pend # NoOp /\ Apply(<<1>>)
          /\ \E l \in {LEffect(pend, cur, alen)} : alen' = l /\ lens' = Append(lens, l)
          /\ UNCHANGED unit
GEmit == /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1
         /\ PrintT(ToJson([m |-> "length", steps |-> [i \in 1..Len(hist) |-> [op |-> hist[i].op, o |-> hist[i].o, canon |-> FALSE, g |-> <<>>, more |-> hist[i].more, e |-> [c |-> hist[i].e.c]]], lens |-> lens, unit |-> unit]))
         /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, alen, lens, unit>>
GNext == (phase = "new" /\ \E k \in {RndInt(1, 3, phase)} : CASE k = 1 -> GPoly [] k = 2 -> GPH [] OTHER -> GCirc) \/ GChoose \/ GApply \/ GEmit
=============================================================================

----------------------------- MODULE GenInterp -----------------------------
EXTENDS Interp, Rnd
CONSTANTS MaxLen, Degs
VARIABLE want
gvars == <<vars, want>>
Coord(s, st) == LET k == RndInt(-9, 9, st) IN IF RndInt(1, s, st) = 1 THEN RI(20 * k) ELSE IF RndInt(1, 6, st) = 1 THEN RQ(k, 7) ELSE RI(k)
GInit == Init /\ want = NoOut
GPlan == want = NoOut /\ want' = [n |-> RndInt(2, MaxLen, phase), dim |-> RndInt(2, 3, phase), far |-> IF RndInt(1, 3, phase) = 1 THEN 4 ELSE 1000] /\ UNCHANGED vars
GAdd == /\ want # NoOut /\ phase = "new" /\ Len(pts) < want.n
        /\ \E x \in {TLCEval([i \in 1..want.dim |-> Coord(want.far, pts)])} :
              IF Len(pts) > 0 /\ ~Differ(pts[Len(pts)], x) THEN UNCHANGED vars ELSE AddPoint(x)
        /\ UNCHANGED want
GMake == /\ want # NoOut /\ phase = "new" /\ Len(pts) = want.n
         /\ \E m \in {RndOf({x \in Makers(Degs) : CanMake(x)}, pts)} : Make(m)
         /\ UNCHANGED want
GEmit == phase = "made" /\ PrintT(ToJson(Emitted)) /\ phase' = "done" /\ UNCHANGED <<pts, out, want>>
GNext == GPlan \/ GAdd \/ GMake \/ GEmit
=============================================================================

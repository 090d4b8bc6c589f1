----------------------------- MODULE MCInterp -----------------------------
(* every list over a small pool and every maker *)
EXTENDS Interp
CONSTANTS MaxLen, Degs, Pool
MNext == \/ \E x \in Pool : Len(pts) < MaxLen /\ AddPoint(x)
         \/ \E m \in Makers(Degs) : Make(m)
Emit == phase = "made" => PrintT(ToJson(Emitted))
Pool2 == {<<RI(0), RI(0)>>, <<RI(3), RI(0)>>, <<RI(3), RI(4)>>, <<RI(-1), RI(1)>>}
Pool3 == {<<RI(0), RI(0), RI(0)>>, <<RI(1), RI(2), RI(2)>>, <<RI(1), RI(-2), RI(4)>>, <<RI(5), RI(0), RI(0)>>}
=============================================================================

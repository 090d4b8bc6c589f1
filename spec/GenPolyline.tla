---------------------------- MODULE GenPolyline ----------------------------
(* Random curves after random histories, some of them straight, to be drawn   *)
(* as polylines: at several scales of the parameter and tolerances            *)
EXTENDS GenCurve, Polyline
VARIABLE out
pvars == <<gvars, out>>
PInit == GInit /\ out = NoOp
Base == phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1
OnLine(c, st) ==
  LET a == TLCEval([i \in 1..(Dim(c) - 1) |-> RI(RndInt(-9, 9, st))])
      d == TLCEval([i \in 1..(Dim(c) - 1) |-> RI(RndInt(-3, 3, st))])
      s == TLCEval(Acc(Zero, [i \in 1..N(c) |-> RndOf({Zero, RQ(1, 2), One, RI(2)}, st)], N(c)))
  IN  [c EXCEPT !.P = [i \in 1..N(c) |-> LET w == Last_(c.P[i]) IN VScale(VAdd(a, VScale(d, s[i])), w) \o <<w>>]]
PMake ==
  /\ Base /\ out = NoOp
  /\ \E k \in {RndSeq(<<"plain", "plain", "plain", "line">>, hist)} :
     \E c \in {TLCEval(IF k = "line" THEN OnLine(cur, hist) ELSE cur)} :
     \E z \in {RndSeq(<<One, One, One, RQ(1, 1073741824), RI(1048576)>>, hist)} :
     \E t \in {RndSeq(<<RQ(1, 1000), RQ(1, 64), RQ(1, 8), RQ(1, 8), One, RI(8)>>, hist)} :
       out' = IF k = "line" /\ VEq(Point(c, DomLo(c)), Point(c, DomHi(c))) THEN [m |-> "skip"]
              ELSE [m |-> "polyline", kind |-> k, ch |-> <<c>>, tol |-> t, scale |-> z, std |-> Eq(t, RQ(1, 1000))]
  /\ UNCHANGED gvars
PEmit == out # NoOp /\ phase = "run" /\ PrintT(ToJson(out)) /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, out>>
PNext == ((GShape \/ GCreate \/ GChoose \/ GApply) /\ UNCHANGED out) \/ PMake \/ PEmit
=============================================================================

----------------------------- MODULE MCPolygon -----------------------------
(* Every polygon over a small grid, up to where it starts, and every point of  *)
(* half the grid                                                               *)
EXTENDS Polygon, SequencesExt
CONSTANTS Corners_, MaxX
Grid_ == {<<RI(i), RI(j)>> : i \in 0..MaxX, j \in 0..MaxX}
Row_ == (2 * MaxX) + 3
Half_ == [k \in 1..(Row_ * Row_) |-> <<RQ(((k - 1) % Row_) - 1, 2), RQ(((k - 1) \div Row_) - 1, 2)>>]
Before(a, b) == Lt(a[1], b[1]) \/ (Eq(a[1], b[1]) /\ Le(a[2], b[2]))
PInit == poly = <<>> /\ asked = <<>>
PNext == poly = <<>> /\ \E n \in Corners_ : \E P \in {Q \in [1..n -> Grid_] : \A i \in 2..n : Before(Q[1], Q[i])} :
           /\ poly' = P
           /\ asked' = LET Q == SelectSeq(Half_, LAMBDA x : ~OnPolygon(P, x)) IN [i \in 1..Len(Q) |-> Ask(P, Q[i])]
Emit == poly # <<>> => PrintT(ToJson([m |-> "polygon", P |-> poly, qs |-> asked]))
=============================================================================

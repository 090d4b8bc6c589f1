------------------------------ MODULE MCKnots ------------------------------
(* Every short knot vector over a few values, with one value added or the     *)
(* vector inverted, and every query at and between the values                 *)
EXTENDS GenKnots
CONSTANTS Lens, MaxX
Values == {RQ(i, 2) : i \in 0..(2 * MaxX)}
Probes == [i \in 1..(2 * MaxX + 3) |-> RQ(i - 2, 2)]
Lists(n) == {s \in [1..n -> 0..MaxX] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]}
MNew == phase = "new" /\ \E n \in Lens : \E s \in Lists(n) : Step("new", Zero, [i \in 1..n |-> RI(s[i])], Probes, <<>>, 2)
MStep == phase = "run" /\ Len(hist) = 1 /\
           \/ \E i \in 1..Len(Probes) : Step("add", Probes[i], KAdd(U, Probes[i]), Probes, <<>>, 0)
           \/ Step("invert", Zero, KInvert(U), Probes, <<>>, 0)
MNext == MNew \/ MStep
Emit == Len(hist) = 2 => PrintT(ToJson([m |-> "knots", steps |-> hist]))
=============================================================================

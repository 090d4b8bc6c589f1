----------------------------- MODULE MCCurve -----------------------------
(* Exhaustive exploration of Curve: every operation with every argument (and
   every pair of operations, with MaxOps = 2) from a catalogue of curves.
   Each complete history is also emitted for replay in the implementation. *)
EXTENDS Curve
CONSTANTS Degs, SpanCounts, Kinds, Rats, Dims,   \* the catalogue
          FirstOps, LastOps                       \* operations of the first / last step

B(i) == RAdd(RI(i), RQ(i * i, 2))                 \* uneven spacing: 0, 3/2, 4, 15/2, ...
RECURSIVE FlatB(_, _, _)
FlatB(i, k, m) == IF i >= k THEN <<>> ELSE Rep(B(i), m) \o FlatB(i + 1, k, m)
KnotsK(p, k, kind) ==
  CASE kind = "simple"    -> Rep(B(0), p + 1) \o FlatB(1, k, 1) \o Rep(B(k), p + 1)
    [] kind = "full"      -> Rep(B(0), p + 1) \o FlatB(1, k, p) \o Rep(B(k), p + 1)
    [] kind = "unclamped" -> [i \in 1..(k + 2 * p + 1) |-> RAdd(RI(i), RQ(i % 3, 4))]
    [] kind = "unclamped2" -> [i \in 1..(k + 2 * p + 1) |-> RAdd(RI(i), RQ(i % 3, 2))]  \* double knots
    [] kind = "shifted"   -> [i \in 1..(2 * p + 2 + k - 1) |->
                                IF i <= p + 1 THEN RI(-3) ELSE IF i > p + k THEN RI(k - 3) ELSE RI(i - p - 4)]
W(i) == CASE i % 3 = 0 -> RI(1) [] i % 3 = 1 -> RI(2) [] OTHER -> RQ(1, 2)
PtK(i, d, rat) ==
  LET w == IF rat THEN W(i) ELSE One
      x == << RI(((i * 7) % 11) - 5), RI(((i * i * 3) % 13) - 6), RI(((i * 5) % 7) - 3) >>
  IN  [j \in 1..d |-> RMul(w, x[j])] \o <<w>>
CurveK(p, k, kind, rat, d) ==
  LET U == KnotsK(p, k, kind) IN
  [p |-> p, U |-> U, P |-> [i \in 1..(Len(U) - p - 1) |-> PtK(i, d, rat)]]

MInit == /\ phase = "new" /\ cur = NoOp /\ ghost = <<>> /\ canon = TRUE /\ pend = NoOp /\ hist = <<>>
MCreate == \E p \in Degs, k \in SpanCounts, kind \in Kinds, r \in Rats, d \in Dims :
              /\ (kind = "full" => k > 1) /\ (kind = "unclamped2" => p > 1)
              /\ Create(CurveK(p, k, kind, r, d), <<7, 1, 2>>)
MChoose == \E op \in (IF Len(hist) = MaxOps THEN LastOps ELSE FirstOps) :
              phase = "run" /\ \E o \in Args(op, cur, canon) : Choose_(o)
MApply == Apply(<<13, 3, 5>>)
MNext == MCreate \/ MChoose \/ MApply
Emit == (phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1)
          => PrintT(ToJson([m |-> "curve", steps |-> hist]))
=============================================================================

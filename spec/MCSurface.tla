---------------------------- MODULE MCSurface ----------------------------
(* Exhaustive exploration of Surface: every operation with every argument   *)
(* (and, with MaxOps = 2, every pair) from a catalogue of surfaces.         *)
EXTENDS Surface
CONSTANTS Degs, SpanCounts, Kinds, Rats, FirstOps, LastOps

B(i) == RAdd(RI(i), RQ(i * i, 2))
RECURSIVE FlatB(_, _, _)
FlatB(i, k, m) == IF i >= k THEN <<>> ELSE Rep(B(i), m) \o FlatB(i + 1, k, m)
KnotsK(p, k, kind) ==
  CASE kind = "simple"    -> Rep(B(0), p + 1) \o FlatB(1, k, 1) \o Rep(B(k), p + 1)
    [] kind = "full"      -> Rep(B(0), p + 1) \o FlatB(1, k, p) \o Rep(B(k), p + 1)
    [] kind = "unclamped" -> [i \in 1..(k + 2 * p + 1) |-> RAdd(RI(i), RQ(i % 3, 4))]
W(i) == CASE i % 3 = 0 -> RI(1) [] i % 3 = 1 -> RI(2) [] OTHER -> RQ(1, 2)
PtK(i, j, rat) ==
  LET w == IF rat THEN W(i + 2 * j) ELSE One
      x == << RI(3 * i - ((j * 5) % 4)), RI(((i * j * 3) % 7) - 2 + 2 * j), RI(((i * 5 + j * j) % 7) - 3) >>
  IN  [a \in 1..3 |-> RMul(w, x[a])] \o <<w>>
SurfK(p, q, k, l, ku, kv, rat) ==
  LET U == KnotsK(p, k, ku)  V == KnotsK(q, l, kv) IN
  [p |-> p, q |-> q, U |-> U, V |-> V,
   P |-> [i \in 1..(Len(U) - p - 1) |-> [j \in 1..(Len(V) - q - 1) |-> PtK(i, j, rat)]]]

MInit == phase = "new" /\ cur = NoOp /\ ghost = <<>> /\ pend = NoOp /\ hist = <<>>
MCreate == \E p \in Degs, q \in Degs, k \in SpanCounts, l \in SpanCounts, ku \in Kinds, kv \in Kinds, r \in Rats :
              /\ (ku = "full" => k > 1 /\ p > 1) /\ (kv = "full" => l > 1 /\ q > 1)
              /\ Create(SurfK(p, q, k, l, ku, kv, r), <<7, 1, 2>>)
MChoose == \E op \in (IF Len(hist) = MaxOps THEN LastOps ELSE FirstOps) :
              phase = "run" /\ \E o \in Args(op, cur) : Choose_(o)
MApply == Apply(<<13, 3, 5>>)
MNext == MCreate \/ MChoose \/ MApply
Emit == (phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1)
          => PrintT(ToJson([m |-> "surface", steps |-> hist]))
=============================================================================

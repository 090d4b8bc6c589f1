------------------------------- MODULE MCBox -------------------------------
(* Every pair of boxes with corners on a small grid *)
EXTENDS Boxes, TLC, Json
CONSTANTS MaxX, Dims
VARIABLES a, b, out
Grid(d) == [1..d -> {RI(i) : i \in 0..MaxX}]
BInit == a = <<>> /\ b = <<>> /\ out = FALSE
BPick == a = <<>> /\ \E d \in Dims : \E p, q \in Grid(d) : a' = <<p, q>> /\ UNCHANGED <<b, out>>
BPair == a # <<>> /\ b = <<>> /\ \E p, q \in Grid(Len(a[1])) : b' = <<p, q>> /\ UNCHANGED <<a, out>>
BNext == BPick \/ BPair
Full == b # <<>>
A == BoxAround(a)
B == BoxAround(b)
Half == [1..Len(a[1]) -> {RQ(i, 2) : i \in 0..(2 * MaxX)}]
MeetInv == Full => /\ Meets(A, B, Zero) = (\E x \in Grid(Len(a[1])) : Holds_(A, x) /\ Holds_(B, x))
                   /\ Meets(A, B, Zero) = Meets(B, A, Zero)
CornerInv == a # <<>> => /\ BoxAround(CornersOf(A)) = A /\ Holds_(A, Centre(A)) /\ Holds_(A, a[1]) /\ Holds_(A, a[2])
                         /\ Len(EdgesOf(A)) = Len(a[1]) * TwoTo(Len(a[1]) - 1)
                         /\ \A i \in 1..Len(EdgesOf(A)) : LET e == EdgesOf(A)[i]  d == VSub(e[2], e[1]) IN
                              /\ Cardinality({k \in 1..Len(d) : ~Eq(d[k], Zero)}) <= 1 /\ Holds_(A, e[1]) /\ Holds_(A, e[2])
                         /\ \A x \in Half : Holds_(A, x) => Meets(A, BoxAround(<<x>>), Zero)
Emit == Full => PrintT(ToJson([m |-> "box", kind |-> "algebra", k |-> 0, P |-> a, Q |-> b, tol |-> <<Zero>>, box |-> A, other |-> B,
                               meets |-> Meets(A, B, Zero), apart |-> ~Meets(A, B, Zero), x |-> <<b[1]>>, has |-> <<Holds_(A, b[1])>>,
                               size |-> SizeOf(A), centre |-> Centre(A), corners |-> CornersOf(A), edges |-> EdgesOf(A)]))
=============================================================================

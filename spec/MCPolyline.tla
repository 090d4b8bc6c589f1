----------------------------- MODULE MCPolyline -----------------------------
(* The halving of the pieces of small curves as a transition system: each     *)
(* choice of the two points that decide whether a piece is flat is explored.  *)
EXTENDS Polyline
CONSTANTS MaxPieces, Degs, Tols
VARIABLES c, tol, done, todo     \* the curve, places reached, pieces still to be looked at
pv == <<c, tol, done, todo>>
W3 == {One, RI(2)}
Ctrl == {<<RI(0), RI(0)>>, <<RI(1), RI(2)>>, <<RI(2), RI(-1)>>, <<RI(0), RI(1)>>}
KnotsFor(p) == IF p = 2 THEN <<Zero, Zero, Zero, One, RI(3), RI(3), RI(3)>> ELSE Rep(Zero, p + 1) \o Rep(RI(2), p + 1)
Curves == UNION {LET U == KnotsFor(p)  n == Len(U) - p - 1 IN
            {[p |-> p, U |-> U, P |-> [i \in 1..n |-> LET w == IF i = 2 THEN v ELSE One IN VScale(f[i], w) \o <<w>>]] : f \in [1..n -> Ctrl], v \in W3} : p \in Degs}
PInit == /\ c \in Curves /\ tol \in Tols
         /\ done = <<DomLo(c)>>
         /\ LET B == Breaks(c) IN todo = [i \in 1..(Len(B) - 1) |-> <<B[i], B[i + 1]>>]
At_(a, b, k) == Point(c, RLerp(a, b, k))
Accept(a, b) == done' = Append(done, b) /\ todo' = Tail(todo)
Halve(a, b) == LET m == RLerp(a, b, RQ(1, 2)) IN done' = done /\ todo' = << <<a, m>>, <<m, b>> >> \o Tail(todo)
PNext ==
  /\ todo # <<>> /\ Len(done) < MaxPieces
  /\ \E k \in {RQ(1, 2), RQ(11, 20), RQ(3, 5), RQ(7, 10)} :
       LET a == todo[1][1]  b == todo[1][2]
           bent == \E j \in {k, RSub(One, k)} : BentBy(At_(a, b, Zero), At_(a, b, j), At_(a, b, One), tol)
       IN  IF bent THEN Halve(a, b) ELSE Accept(a, b)
  /\ UNCHANGED <<c, tol>>
(* every accepted piece is held down; no piece is halved needlessly            *)
HeldInv == Len(done) > 1 => LET n == Len(done) IN HeldDown(c, done[n - 1], done[n], tol, Spread(c), Zero)
NeedInv == Len(done) > 2 => LET n == Len(done) IN ~Needless(c, done[n - 2], done[n - 1], done[n], tol)
EndInv == todo = <<>> => LET w == [i \in 1..Len(done) |-> <<1, done[i]>>] IN InOrder(<<c>>, w) /\ KnotsKept(<<c>>, w)
LineInv == Straight(c) /\ todo = <<>> => Len(done) = Len(Breaks(c))
=============================================================================

------------------------------ MODULE Compound ------------------------------
(***************************************************************************)
(* Compound curves: a chain of curves, each starting where the previous one *)
(* ends, in place and in parameter.                                         *)
(*                                                                          *)
(* chain  sequence of spans [c, g]: the curve and what must survive, a      *)
(*        sequence of <<parameter, point>> pairs that no operation computes *)
(*        from the new control points                                       *)
(* A chain is built from pieces given in any order and direction.  Which    *)
(* end becomes the start is not determined then, and neither is the first   *)
(* span of a closed chain; a chain given in order keeps its order.          *)
(***************************************************************************)
EXTENDS Curve, Rnd
SpanOf(c) == [c |-> c, g |-> GhostOf(c)]
(* u |-> f*u + k on the parameters of a span, f > 0 *)
Repar(s, f, k) == [c |-> AffineKnots(s.c, f, k), g |-> [i \in 1..Len(s.g) |-> <<RAdd(RMul(f, s.g[i][1]), k), s.g[i][2]>>]]
Width(s) == RSub(DomHi(s.c), DomLo(s.c))
RECURSIVE Align(_, _, _)
Align(ch, i, at) == IF i > Len(ch) THEN <<>> ELSE <<Repar(ch[i], One, RSub(at, DomLo(ch[i].c)))>> \o Align(ch, i + 1, RAdd(at, Width(ch[i])))
Total(ch) == DomHi(ch[Len(ch)].c)
First(s) == s.g[1][2]
Final(s) == Last_(s.g)[2]
ClosedChain(ch) == VEq(First(ch[1]), Final(ch[Len(ch)]))

(* the joints are distinct places, so that the pieces determine the chain *)
Far_(x, y) == LET d == VSub(x, y) IN Lt(RQ(1, 64), VDot(d, d))
Determined(ch) ==
  LET n == Len(ch)
      J == TLCEval(<<First(ch[1])>> \o [i \in 1..n |-> Final(ch[i])])
  IN  \A i, j \in 1..(n + 1) : (i < j /\ ~(i = 1 /\ j = n + 1)) => Far_(J[i], J[j])

(* operations *)
RevSpan(s) == LET t == RAdd(s.c.U[1], Last_(s.c.U)) IN
  [c |-> Reverse(s.c), g |-> Rev([i \in 1..Len(s.g) |-> <<RSub(t, s.g[i][1]), s.g[i][2]>>])]
RevChain(ch) == Align(Rev([i \in 1..Len(ch) |-> RevSpan(ch[i])]), 1, Zero)
MapChain(ch, M, t) == [i \in 1..Len(ch) |-> [c |-> Transform(ch[i].c, M, t), g |-> [j \in 1..Len(ch[i].g) |-> <<ch[i].g[j][1], MapP(M, t, ch[i].g[j][2])>>]]]
(* the part of a span between a and b: the whole span if it is inside *)
Part(s, a, b) ==
  LET lo == IF Lt(a, DomLo(s.c)) THEN DomLo(s.c) ELSE a
      hi == IF Lt(DomHi(s.c), b) THEN DomHi(s.c) ELSE b
  IN  IF Le(hi, lo) THEN <<>>
      ELSE IF Eq(lo, DomLo(s.c)) /\ Eq(hi, DomHi(s.c)) THEN <<s>>
      ELSE << [c |-> Restrict(s.c, lo, hi), g |-> << <<lo, Point(s.c, lo)>> >> \o SelectSeq(s.g, LAMBDA e : Lt(lo, e[1]) /\ Lt(e[1], hi)) \o << <<hi, Point(s.c, hi)>> >>] >>
RECURSIVE Parts(_, _, _, _)
Parts(ch, a, b, i) == IF i > Len(ch) THEN <<>> ELSE Part(ch[i], a, b) \o Parts(ch, a, b, i + 1)
TrimChain(ch, a, b) == IF Lt(a, b) THEN Parts(ch, a, b, 1) ELSE Parts(ch, a, Total(ch), 1) \o Parts(ch, Zero, b, 1)
=============================================================================

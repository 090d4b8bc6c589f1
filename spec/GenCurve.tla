----------------------------- MODULE GenCurve -----------------------------
(* Random behaviours of Curve, emitted as JSON for replay in the implementation *)
EXTENDS Curve, Rnd
CONSTANTS Ops,        \* sequence of operation names to draw from (repeat to weigh)
          MaxDeg, ForceUnclamped
VARIABLE shape
gvars == <<vars, shape>>

(* a shape: degree, spans, multiplicities, spacing, clampedness, dimension, weights *)
RndShape(st) ==
  LET p == RndInt(1, MaxDeg, st)
      k == RndInt(1, 4, st)
      cl == ~ForceUnclamped /\ RndInt(1, 4, st) > 1
  IN  [p |-> p, spans |-> k, clamped |-> cl,
       start |-> RndOf({RI(0), RI(-2), RQ(3, 2)}, st),
       steps |-> [i \in 1..(k + 2 * p) |-> IF RndInt(1, 2, st) = 1 THEN RI(1)
                                           ELSE RndOf({RQ(1, 2), RI(1), RI(2), RI(3)}, st)],
       mults |-> [i \in 1..k |-> IF RndInt(1, 3, st) = 1 THEN RndInt(1, p, st) ELSE 1],
       dim |-> RndInt(2, 3, st), rational |-> RndInt(1, 2, st) = 1,
       closed |-> RndInt(1, 4, st) = 1]

RECURSIVE Acc(_, _, _)
Acc(start, steps, n) == IF n = 0 THEN <<start>> ELSE
   LET r == Acc(start, steps, n - 1) IN Append(r, RAdd(Last_(r), steps[n]))
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
KnotsOf(sh) ==
  IF sh.clamped THEN
    LET B == Acc(sh.start, sh.steps, sh.spans) IN
    Rep(B[1], sh.p + 1) \o Flat([i \in 1..(sh.spans - 1) |-> Rep(B[i + 1], sh.mults[i])])
      \o Rep(B[sh.spans + 1], sh.p + 1)
  ELSE Acc(sh.start, sh.steps, sh.spans + 2 * sh.p)

RndPt(sh, st) ==
  LET w == IF sh.rational THEN RndOf({RI(1), RI(2), RI(3), RQ(1, 2)}, st) ELSE RI(1)
  IN  [i \in 1..sh.dim |-> RMul(w, RI(RndInt(-9, 9, st)))] \o <<w>>

RndInts(n, st) == TLCEval([i \in 1..n |-> RndInt(0, 999, st)])

GInit == /\ phase = "new" /\ cur = NoOp /\ ghost = <<>> /\ canon = TRUE /\ pend = NoOp /\ hist = <<>>
         /\ shape = NoOp
GShape == phase = "new" /\ shape = NoOp /\ shape' = RndShape(phase) /\ UNCHANGED vars
GCreate ==
  /\ phase = "new" /\ shape # NoOp
  /\ LET U == KnotsOf(shape)
         n == Len(U) - shape.p - 1
     IN  \E P \in {TLCEval([i \in 1..n |-> RndPt(shape, phase)])}, rs \in {RndInts(3, phase)} :
           LET Q == IF shape.closed /\ shape.clamped /\ n > 2 THEN [P EXCEPT ![n] = P[1]] ELSE P
           IN  Create([p |-> shape.p, U |-> U, P |-> Q], rs)
  /\ UNCHANGED shape
GChoose ==
  /\ phase = "run" /\ pend = NoOp /\ Len(hist) <= MaxOps
  /\ \E op \in {RndSeq(Ops, hist)} : \E A \in {Args(op, cur, canon)} :
        IF A = {} THEN UNCHANGED vars ELSE Choose_(RndOf(A, hist))
  /\ UNCHANGED shape
GApply == /\ phase = "run" /\ pend # NoOp
          /\ \E rs \in {RndInts(3, hist)} : Apply(rs)
          /\ UNCHANGED shape
GEmit  == /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1
          /\ PrintT(ToJson([m |-> "curve", steps |-> hist]))
          /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape>>
GNext == GShape \/ GCreate \/ GChoose \/ GApply \/ GEmit
=============================================================================

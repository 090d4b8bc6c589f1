---------------------------- MODULE GenSurface ----------------------------
(* Random behaviours of Surface, emitted as JSON for replay *)
EXTENDS Surface, Rnd
CONSTANTS Ops, MaxDeg
VARIABLE shape
gvars == <<vars, shape>>

RECURSIVE Acc(_, _, _)
Acc(start, steps, n) == IF n = 0 THEN <<start>> ELSE
   LET r == Acc(start, steps, n - 1) IN Append(r, RAdd(Last_(r), steps[n]))
RndKnots(p, k, cl, st) ==
  LET start == RndOf({RI(0), RI(-2), RQ(3, 2)}, st)
      steps == TLCEval([i \in 1..(k + 2 * p) |-> RndOf({RQ(1, 2), RI(1), RI(2)}, st)])
      B == Acc(start, steps, k)
      m == TLCEval([i \in 1..k |-> IF RndInt(1, 3, st) = 1 THEN RndInt(1, p, st) ELSE 1])
  IN  IF cl THEN Rep(B[1], p + 1) \o Cat([i \in 1..(k - 1) |-> Rep(B[i + 1], m[i])]) \o Rep(B[k + 1], p + 1)
      ELSE Acc(start, steps, k + 2 * p)
RndShape(st) ==
  [p |-> RndInt(1, MaxDeg, st), q |-> RndInt(1, MaxDeg, st), ku |-> RndInt(1, 3, st), kv |-> RndInt(1, 3, st),
   cu |-> RndInt(1, 5, st) > 1, cv |-> RndInt(1, 5, st) > 1, rat |-> RndInt(1, 2, st) = 1]
RndPt(rat, st) ==
  LET w == IF rat THEN RndOf({RI(1), RI(2), RI(3), RQ(1, 2)}, st) ELSE RI(1)
  IN  [i \in 1..3 |-> RMul(w, RI(RndInt(-6, 6, st)))] \o <<w>>
RndInts(n, st) == TLCEval([i \in 1..n |-> RndInt(0, 999, st)])

GInit == phase = "new" /\ cur = NoOp /\ ghost = <<>> /\ pend = NoOp /\ hist = <<>> /\ shape = NoOp
GShape == phase = "new" /\ shape = NoOp /\ shape' = RndShape(phase) /\ UNCHANGED vars
GCreate ==
  /\ phase = "new" /\ shape # NoOp
  /\ \E U \in {TLCEval(RndKnots(shape.p, shape.ku, shape.cu, phase))}, V \in {TLCEval(RndKnots(shape.q, shape.kv, shape.cv, phase))} :
     \E P \in {TLCEval([i \in 1..(Len(U) - shape.p - 1) |-> TLCEval([j \in 1..(Len(V) - shape.q - 1) |-> RndPt(shape.rat, phase)])])},
        rs \in {RndInts(3, phase)} :
        Create([p |-> shape.p, q |-> shape.q, U |-> U, V |-> V, P |-> P], rs)
  /\ UNCHANGED shape
GChoose ==
  /\ phase = "run" /\ pend = NoOp /\ Len(hist) <= MaxOps
  /\ \E op \in {RndSeq(Ops, hist)} : \E A \in {Args(op, cur)} :
        IF A = {} THEN UNCHANGED vars ELSE Choose_(RndOf(A, hist))
  /\ UNCHANGED shape
GApply == /\ phase = "run" /\ pend # NoOp
          /\ \E rs \in {RndInts(3, hist)} : Apply(rs)
          /\ UNCHANGED shape
GEmit  == /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1
          /\ PrintT(ToJson([m |-> "surface", steps |-> hist]))
          /\ phase' = "done" /\ UNCHANGED <<cur, ghost, pend, hist, shape>>
GNext == GShape \/ GCreate \/ GChoose \/ GApply \/ GEmit
=============================================================================

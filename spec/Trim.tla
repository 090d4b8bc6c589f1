-------------------------------- MODULE Trim --------------------------------
(***************************************************************************)
(* Trimmed surfaces: a surface s, and in its parameter plane an exterior     *)
(* loop (<<>> or one; without it the whole domain) and holes.  The kept part *)
(* are the points of the surface at the parameters inside of the exterior    *)
(* and outside of the holes.  Reversing the surface renames its parameters,  *)
(* and the loops follow; maps of space leave them alone.                     *)
(***************************************************************************)
EXTENDS Region, Tensor
(* affine change of parameters: knots from [a, b] to [x, y] *)
Refit(U, x, y) == LET a == U[1]  k == RDiv(RSub(y, x), RSub(Last_(U), a)) IN [i \in 1..Len(U) |-> RAdd(x, RMul(k, RSub(U[i], a)))]
Cover(s, b) == TLCEval([s EXCEPT !.U = Refit(s.U, b[1], b[2]), !.V = Refit(s.V, b[3], b[4])])
Domain(s) == <<SLoU(s), SHiU(s), SLoV(s), SHiV(s)>>
Opposite(s, q) == << RSub(RAdd(SLoU(s), SHiU(s)), q[1]), RSub(RAdd(SLoV(s), SHiV(s)), q[2]) >>
OppositeC(s, c) == Reverse(Transform(c, << <<RI(-1), Zero>>, <<Zero, RI(-1)>> >>, << RAdd(SLoU(s), SHiU(s)), RAdd(SLoV(s), SHiV(s)) >>))
OppositeL(s, l) == LoopOf([c |-> OppositeC(s, l.c), o |-> Opposite(s, l.o), kind |-> l.kind])
OppositeS(s) == LET r == OnU(s, Reverse) IN OnV(r, Reverse)
TrimOp(o, x) ==
  IF o.op = "invert" THEN [s |-> OppositeS(x.s), ext |-> TLCEval([i \in 1..Len(x.ext) |-> OppositeL(x.s, x.ext[i])]),
                           holes |-> TLCEval([i \in 1..Len(x.holes) |-> OppositeL(x.s, x.holes[i])])]
  ELSE [x EXCEPT !.s = [x.s EXCEPT !.P = [i \in 1..Len(x.s.P) |-> [j \in 1..Len(x.s.P[1]) |-> MapH(o.M, o.t, x.s.P[i][j])]]]]
Kept(x, q) ==   \* 1: kept, 0: not, -1: unknown
  LET e == IF x.ext = <<>> THEN (IF OutOf(Domain(x.s), q) THEN 0 ELSE 1) ELSE InLoop(x.ext[1], q)
      h == TLCEval([i \in 1..Len(x.holes) |-> InLoop(x.holes[i], q)])
  IN  IF e # 1 THEN e ELSE IF \E i \in 1..Len(h) : h[i] = -1 THEN -1 ELSE IF \E i \in 1..Len(h) : h[i] = 1 THEN 0 ELSE 1
=============================================================================

---------------------------- MODULE GenConstruct ----------------------------
(* Random surfaces made from random curves, with what they must contain *)
EXTENDS GenCurve, Construct, Turns
CONSTANTS Kinds, MaxSections
VARIABLES made
cvars == <<vars, shape, made>>
CInit == GInit /\ made = NoOp
Base == phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1 /\ Dim(cur) = 4
Keep == UNCHANGED <<vars, shape>>

RndCurve(deg, st) ==
  LET sh == TLCEval([RndShape(st) EXCEPT !.dim = 3, !.p = RndInt(1, deg, <<st>>), !.clamped = TRUE, !.mults = TLCEval([i \in 1..4 |-> 1])])
      U == KnotsOf(sh)
  IN  [p |-> sh.p, U |-> U, P |-> [i \in 1..(Len(U) - sh.p - 1) |-> RndPt(sh, st)]]
RndVec(st) == TLCEval([i \in 1..3 |-> RQ(RndInt(-12, 12, st), RndOf({1, 2, 3}, st))])
Samples(c) == LET B == Breaks(c) IN [i \in 1..(2 * Len(B) - 1) |-> IF i % 2 = 1 THEN B[(i + 1) \div 2] ELSE Mid(B[i \div 2], B[(i \div 2) + 1])]
Pairs2(c) == LET S == Samples(c) IN [i \in 1..Len(S) |-> <<S[i], Point(c, S[i])>>]
Grid == <<Zero, RQ(1, 4), RQ(1, 2), RQ(7, 8), One>>
NonZero(v) == Lt(Zero, Norm2(v))

MkExtrude(c, t) ==
  LET S == Pairs2(c)  n == Len(S) IN
  [kind |-> "extrude", c |-> c, t |-> t,
   e |-> [k \in 1..(5 * n) |-> LET i == ((k - 1) % n) + 1  h == Grid[((k - 1) \div n) + 1]
                               IN  [h |-> h, u |-> S[i][1], x |-> VAdd(S[i][2], VScale(t, h))]]]
MkPlane(o, x, y) ==
  [kind |-> "plane", o |-> o, x |-> x, y |-> y,
   e |-> [k \in 1..25 |-> LET a == Grid[((k - 1) \div 5) + 1]  b == Grid[((k - 1) % 5) + 1]
                              f(z) == RSub(RMul(RI(2), z), One)
                          IN  [u |-> a, v |-> b, x |-> VAdd(o, VAdd(VScale(x, f(a)), VScale(y, f(b))))]]]
(* sections: any curves; qd: the degree asked for (0: none) *)
MkLoft(cs, qd) ==
  LET es == Compatible(cs)
      p == es[1].p
      S == Samples(es[1])
  IN  [kind |-> "loft", cs |-> cs, qd |-> qd, p |-> p, q |-> IF qd # 0 /\ qd < Len(cs) - 1 THEN qd ELSE IF qd = 0 /\ p < Len(cs) - 1 THEN p ELSE Len(cs) - 1,
       U |-> es[1].U, S |-> S, g |-> [k \in 1..Len(cs) |-> LET c == Range01(Clamp(cs[k])) IN [i \in 1..Len(S) |-> Point(c, S[i])]],
       same |-> [k \in 1..Len(cs) |-> [i \in 1..Len(S) |-> Point(es[k], S[i])]]]
Distinctive(cs) == LET es == Compatible(cs) IN
  \A k \in 1..(Len(cs) - 1) : \E i \in 1..Len(es[k].P) : ~VEq(es[k].P[i], es[k + 1].P[i])
MkRevolve(c, o, D, len, st, m, sg) ==
  LET S == Pairs2(c) IN
  [kind |-> "revolve", c |-> c, o |-> o, ax |-> VScale(D[1], len), unit |-> D[1], step |-> st.step, m |-> m, sg |-> sg, full |-> IsFull(st, m), g |-> S]
MkSphere(o, D, len, r) == [kind |-> "sphere", o |-> o, ax |-> VScale(D[1], len), unit |-> D[1], xa |-> VScale(D[2], len), r |-> r]
Rail(c, n) == [i \in 1..n |-> LET u == RLerp(DomLo(c), DomHi(c), RQ(i - 1, n - 1)) IN [u |-> u, x |-> Point(c, u), d |-> Der1(c, u), sm |-> SmoothAt(c, u)]]
Sound(R) == \A i \in 1..Len(R) : R[i].sm /\ NonZero(R[i].d)
MkSweep(c, rail, qd) == [kind |-> "sweep", c |-> c, rail |-> rail, qd |-> qd, R |-> Rail(rail, 2 * N(rail)), g |-> Pairs2(c)]
MkFrames(c, us) == [kind |-> "frames", c |-> c, R |-> [i \in 1..Len(us) |-> [u |-> us[i], x |-> Point(c, us[i]), d |-> Der1(c, us[i]), sm |-> SmoothAt(c, us[i])]]]

CMake ==
  /\ Base /\ made = NoOp
  /\ \E k \in {RndSeq(Kinds, hist)} :
     CASE k = "extrude" -> \E t \in {RndVec(hist)} : made' = MkExtrude(cur, t)
       [] k = "plane" -> \E o, x, y \in {RndVec(hist)} : made' = MkPlane(o, x, y)
       [] k = "loft" ->
            \E n \in {RndInt(2, MaxSections, hist)}, qd \in {RndInt(0, 4, hist)}, pinch \in {RndInt(1, 4, hist)} :
            \E cs \in {TLCEval([i \in 1..n |-> IF i = 1 THEN cur
                         ELSE IF pinch # 1 /\ RndInt(1, 3, hist) = 1 THEN Transform(cur, RndOf(Mats(3), hist), RndOf(Shifts(3), hist))
                         ELSE LET c == RndCurve(MaxDeg, hist) IN IF pinch = 1 THEN [c EXCEPT !.P[1] = Clamp(cur).P[1]] ELSE c])} :
              IF Distinctive(cs) = TRUE THEN made' = MkLoft(cs, qd) ELSE UNCHANGED made
       [] k = "revolve" ->
            \E D \in {RndSeq(Dirs3, hist)}, st \in {RndSeq(Steps, hist)}, sg \in {RndOf({1, 1, -1}, hist)}, on \in {RndInt(1, 3, hist)} :
            \E m \in {RndInt(1, st.n, hist)}, len \in {RndOf({One, RI(3), RQ(1, 7)}, hist)} :
            \E o \in {TLCEval(IF on = 1 THEN Dehom(cur.P[RndInt(1, N(cur), hist)]) ELSE RndVec(hist))} :
              made' = MkRevolve(cur, o, IF RndInt(1, 2, hist) = 1 THEN <<D[2], D[1]>> ELSE D, len, st, m, sg)
       [] k = "sphere" ->
            \E D \in {RndSeq(Dirs3, hist)}, o \in {RndVec(hist)}, r \in {RndOf({One, RI(4), RQ(1, 5), RI(30)}, hist)}, len \in {RndOf({One, One, RI(2), RQ(1, 3)}, hist)} :
              made' = MkSphere(o, D, len, r)
       [] k = "sweep" ->
            \E rail \in {TLCEval(RndCurve(3, hist))}, qd \in {RndInt(0, 3, hist)} :
              IF (Valid(rail) /\ Sound(Rail(rail, 2 * N(rail)))) = TRUE THEN made' = MkSweep(cur, rail, qd) ELSE UNCHANGED made
       [] k = "frames" ->
            \E n \in {RndInt(0, 9, hist)} : \E C \in {TLCEval(SelectSeq(Cands(cur), LAMBDA u : SmoothAt(cur, u) /\ NonZero(Der1(cur, u))))} :
            \E pick \in {TLCEval([i \in 1..Len(C) |-> RndInt(0, 9, hist)])} :
              made' = MkFrames(cur, Flat([i \in 1..Len(C) |-> IF pick[i] = 0 THEN <<C[i], C[i]>> ELSE IF pick[i] < n THEN <<C[i]>> ELSE <<>>]))
  /\ Keep
(* space curves only *)
CShape == phase = "new" /\ shape = NoOp /\ shape' = [RndShape(phase) EXCEPT !.dim = 3] /\ UNCHANGED vars
CEmit == /\ phase = "run" /\ made # NoOp
         /\ PrintT(ToJson([m |-> "construct", s |-> made]))
         /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, made>>
CNext == ((CShape \/ GCreate \/ GChoose \/ GApply) /\ UNCHANGED made) \/ CMake \/ CEmit

(* making sections compatible moves no point of them *)
CompatInv == (made # NoOp /\ made.kind = "loft") => \A k \in 1..Len(made.g) : \A i \in 1..Len(made.g[k]) : VEq(made.g[k][i], made.same[k][i])
(* frames carried by the least rotation stay across the new tangent *)
CarryInv == \A a \in {V3(1, 2, 2, 3)} : \A b \in {V3(2, 3, 6, 7)} : VDot(Carry(a, b, V3(2, 1, -2, 3)), b)[1] = 0
=============================================================================

---------------------------- MODULE GenNearest ----------------------------
(* Surfaces (random, closed, round) with queries and how near they must come *)
EXTENDS GenSurface, Nearest, Zoom
CONSTANTS Queries, Fine
VARIABLES round, net, qs
nvars == <<round, net, qs>>
NInit == GInit /\ round = NoOp /\ net = <<>> /\ qs = <<>>

(* closing a net: the last row is the first again; seamless: its neighbours mirror *)
CloseU(s) == [s EXCEPT !.P = [i \in 1..Len(s.P) |-> IF i = Len(s.P) THEN s.P[1] ELSE s.P[i]]]
CloseV(s) == Swap(CloseU(Swap(s)))
Shut(s, k) == CASE k = 1 /\ s.p > 1 -> CloseU(s) [] k = 2 /\ s.q > 1 -> CloseV(s) [] k = 3 /\ s.p > 1 /\ s.q > 1 -> CloseU(CloseV(s)) [] OTHER -> s
NCreate ==
  /\ phase = "new" /\ shape # NoOp
  /\ \E U \in {TLCEval(RndKnots(shape.p, shape.ku, shape.cu, phase))}, V \in {TLCEval(RndKnots(shape.q, shape.kv, shape.cv, phase))} :
     \E P \in {TLCEval([i \in 1..(Len(U) - shape.p - 1) |-> TLCEval([j \in 1..(Len(V) - shape.q - 1) |-> RndPt(shape.rat, phase)])])}, k \in {RndInt(0, 5, phase)} :
     \E s \in {TLCEval(Shut([p |-> shape.p, q |-> shape.q, U |-> U, V |-> V, P |-> P], k))} : Create(s, <<0, 0, 0>>)
  /\ UNCHANGED <<shape, nvars>>
NRound ==
  /\ phase = "new" /\ shape # NoOp /\ round = NoOp
  /\ \E k \in {RndSeq(<<"sphere", "tube", "torus">>, phase)}, D \in {RndSeq(Dirs3, phase)}, R \in {RndOf({RI(3), RI(5), RQ(17, 4)}, phase)}, r \in {RndOf({One, RI(2), RQ(1, 3)}, phase)} :
     \E o \in {TLCEval([i \in 1..3 |-> RI(RndInt(-9, 9, phase))])} :
       round' = [kind |-> k, o |-> o, a |-> D[1], e |-> D[2], R |-> R, r |-> r]
  /\ phase' = "ask" /\ UNCHANGED <<cur, ghost, pend, hist, shape, net, qs>>

QKinds == <<"on", "normal", "normal", "edge", "corner", "control", "any">>
Jit(k, st) == TLCEval([i \in 1..3 |-> RQ(RndInt(-7, 7, st), k)])
MkQuery(kind, st) ==
  LET u == RLerp(SLoU(cur), SHiU(cur), RQ(RndInt(0, 16, st), 16))
      v == RLerp(SLoV(cur), SHiV(cur), RQ(RndInt(0, 16, st), 16))
      e == RndOf({1, 2, 3, 4}, st)
      ue == CASE e = 1 -> SLoU(cur) [] e = 2 -> SHiU(cur) [] OTHER -> u
      ve == CASE e = 3 -> SLoV(cur) [] e = 4 -> SHiV(cur) [] OTHER -> v
  IN  TLCEval(CASE kind = "on" -> SPoint(cur, u, v)
        [] kind = "normal" -> LET d == Partials(cur, u, v) IN VAdd(d.x, VScale(Cross_(d.u, d.v), RQ(RndInt(-8, 8, st), 256)))
        [] kind = "edge" -> VAdd(SPoint(cur, ue, ve), Jit(4, st))
        [] kind = "corner" -> VAdd(SPoint(cur, RndOf({SLoU(cur), SHiU(cur)}, st), RndOf({SLoV(cur), SHiV(cur)}, st)), Jit(2, st))
        [] kind = "control" -> VAdd(Dehom(RndSeq(RndSeq(cur.P, st), st)), Jit(3, st))
        [] OTHER -> TLCEval([i \in 1..3 |-> RI(RndInt(-15, 15, st))]))
NNet == /\ phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1 /\ net = <<>>
        /\ net' = Net(cur, Fine) /\ UNCHANGED <<gvars, round, qs>>
NAsk == /\ phase = "run" /\ net # <<>> /\ Len(qs) < Queries
        /\ \E kind \in {RndSeq(QKinds, qs)} : \E x \in {MkQuery(kind, qs)} :
             qs' = Append(qs, [kind |-> kind, x |-> x, exact |-> FALSE, b |-> Least(net, x, 1)])
        /\ UNCHANGED <<gvars, round, net>>
(* a parallelogram has an exact distance only from points above it: those of "normal" *)
RQuery(st) ==
  LET o == round.o  d == RndSeq(Starts, st)
      third == Cross_(round.a, round.e)
      rad == VAdd(VScale(round.e, d[1]), VScale(third, d[2]))          \* unit, across the axis
      t == RQ(RndInt(1, 40, st), 8)
      h == RQ(RndInt(-16, 40, st), 8)
      d2 == RndSeq(Starts, st)
  IN  CASE round.kind = "sphere" ->
             LET w == VAdd(VScale(rad, d2[1]), VScale(round.a, d2[2])) IN
             [kind |-> "sphere", x |-> VAdd(o, VScale(w, t)), exact |-> TRUE, b |-> LET g == SphereGap(round.R, t) IN RMul(g, g)]
        [] round.kind = "tube" ->
             [kind |-> "tube", x |-> VAdd(o, VAdd(VScale(round.a, h), VScale(rad, t))), exact |-> TRUE, b |-> TubeGap2(round.r, round.R, h, t)]
        [] OTHER ->
             LET s == RQ(RndInt(1, 16, st), 8) IN          \* at most 2, less than R
             [kind |-> "torus", x |-> VAdd(o, VAdd(VScale(rad, RAdd(round.R, RMul(s, d2[1]))), VScale(round.a, RMul(s, d2[2])))), exact |-> TRUE,
              b |-> LET g == TorusGap(round.r, s) IN RMul(g, g)]
RAsk == /\ phase = "ask" /\ Len(qs) < Queries
        /\ \E q \in {RQuery(qs)} : qs' = Append(qs, q)
        /\ UNCHANGED <<gvars, round, net>>
NEmit == /\ \/ phase = "run" /\ Len(qs) = Queries
            \/ phase = "ask" /\ Len(qs) = Queries
         /\ \E z \in {TLCEval(RndZoom(qs))} :
              PrintT(ToJson([m |-> "nearest", s |-> IF round = NoOp THEN ZoomS(cur, z.g, z.fa, z.fb) ELSE cur, zoom |-> z,
                             round |-> IF round = NoOp THEN round ELSE [round EXCEPT !.o = VScale(round.o, z.g), !.R = RMul(z.g, round.R), !.r = RMul(z.g, round.r)],
                             ops |-> [i \in 1..Len(hist) |-> hist[i].op],
                             qs |-> [i \in 1..Len(qs) |-> [qs[i] EXCEPT !.x = VScale(qs[i].x, z.g), !.b = RMul(RMul(z.g, z.g), qs[i].b)]]]))
         /\ phase' = "done" /\ UNCHANGED <<cur, ghost, pend, hist, shape, nvars>>
Pick == phase = "new" /\ shape # NoOp
NNext == \/ ((GShape \/ GChoose \/ GApply) /\ UNCHANGED nvars)
         \/ (Pick /\ IF RndInt(1, 3, phase) = 1 THEN NRound ELSE NCreate)
         \/ NNet \/ NAsk \/ RAsk \/ NEmit
(* the net contains the corners, and queries on the net are at no distance *)
NetInv == (net # <<>> /\ qs = <<>>) =>
   /\ VEq(net[1], SPoint(cur, SLoU(cur), SLoV(cur))) /\ VEq(net[Len(net)], SPoint(cur, SHiU(cur), SHiV(cur)))
   /\ Eq(Least(net, net[(Len(net) \div 2) + 1], 1), Zero)
(* the round surfaces' distances are those to actual points of them *)
RoundInv == \A i \in 1..Len(qs) : qs[i].exact => Le(Zero, qs[i].b)
=============================================================================

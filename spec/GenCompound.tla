---------------------------- MODULE GenCompound ----------------------------
(* Random chains, built from shuffled pieces, and histories of operations on them *)
EXTENDS GenCurve, Compound
CONSTANTS MaxSteps, MaxPieces
VARIABLES chain, todo, given, steps, qs
kvars == <<vars, shape, chain, todo, given, steps, qs>>
KInit == GInit /\ chain = <<>> /\ todo = NoOp /\ given = <<>> /\ steps = <<>> /\ qs = <<>>
keep == UNCHANGED <<vars, shape>>
Base == phase = "run" /\ pend = NoOp /\ Len(hist) = MaxOps + 1

(* how to build the chain *)
KPlan ==
  /\ Base /\ todo = NoOp
  /\ \E k \in {RndSeq(<<"cut", "join", "close", "close">>, hist)} : \E n \in {RndInt(IF k = "close" THEN 2 ELSE 1, MaxPieces, hist)} : todo' = [kind |-> k, n |-> n, tries |-> 0]
  /\ keep /\ UNCHANGED <<chain, given, steps, qs>>
Building == todo # NoOp /\ given = <<>> /\ Len(chain) < todo.n
(* pieces of one curve *)
RECURSIVE Pick(_, _, _)
Pick(C, n, st) == IF n = 0 \/ C = <<>> THEN <<>>
  ELSE LET i == RndInt(1, Len(C), st) IN <<C[i]>> \o Pick(SelectSeq(C, LAMBDA x : ~Eq(x, C[i])), n - 1, st)
RECURSIVE SortR(_)
SortR(s) == IF s = <<>> THEN <<>> ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : Le(s[i], s[j]) IN <<s[m]>> \o SortR(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
RECURSIVE Cut(_, _, _)
Cut(c, us, i) == IF i >= Len(us) THEN <<>> ELSE <<SpanOf(Restrict(c, us[i], us[i + 1]))>> \o Cut(c, us, i + 1)
KCut ==
  /\ Building /\ todo.kind = "cut"
  /\ \E us \in {TLCEval(SortR(Pick(InnerCands(cur), todo.n - 1, todo)))} :
     \E ch \in {TLCEval(IF us = <<>> THEN <<SpanOf(cur)>> ELSE Cut(cur, <<DomLo(cur)>> \o us \o <<DomHi(cur)>>, 1))} :
       IF Determined(ch) THEN chain' = ch /\ todo' = [todo EXCEPT !.n = Len(ch)]
       ELSE todo' = [todo EXCEPT !.tries = todo.tries + 1, !.kind = IF todo.tries > 6 THEN "join" ELSE "cut"] /\ UNCHANGED chain
  /\ keep /\ UNCHANGED <<given, steps, qs>>
(* curves of any kind one after the other; the last may lead back *)
Next_(c) == IF chain = <<>> THEN c
            ELSE Transform(c, [i \in 1..(Dim(c) - 1) |-> [j \in 1..(Dim(c) - 1) |-> IF i = j THEN One ELSE Zero]],
                           VSub(Final(chain[Len(chain)]), Point(c, DomLo(c))))
Back(st) ==    \* from the end to the start: a line or an arch
  LET a == Final(chain[Len(chain)])  b == First(chain[1])
      m == VAdd(VScale(VAdd(a, b), RQ(1, 2)), TLCEval([i \in 1..Len(a) |-> RI(RndInt(-3, 3, st))]))
      w == RndOf({One, RI(2), RQ(1, 2)}, st)
  IN  IF RndInt(1, 2, st) = 1 THEN [p |-> 1, U |-> <<Zero, Zero, RI(2), RI(2)>>, P |-> <<a \o <<One>>, VScale(b, w) \o <<w>> >>]
      ELSE [p |-> 2, U |-> <<One, One, One, RI(4), RI(4), RI(4)>>, P |-> <<a \o <<One>>, VScale(m, w) \o <<w>>, b \o <<One>> >>]
RndCurve(dim, st) ==
  LET sh == TLCEval([RndShape(st) EXCEPT !.dim = dim - 1, !.closed = FALSE])
      U == KnotsOf(sh)
  IN  [p |-> sh.p, U |-> U, P |-> [i \in 1..(Len(U) - sh.p - 1) |-> RndPt(sh, st)]]
Jig(c, st) == AffineKnots(c, RndOf({One, RI(2), RQ(1, 2), RQ(1, 4)}, st), RI(RndInt(-2, 2, st)))
KAdd ==
  /\ Building /\ todo.kind \in {"join", "close"}
  /\ \E c \in {TLCEval(IF chain = <<>> THEN cur
                       ELSE IF todo.kind = "close" /\ Len(chain) + 1 = todo.n THEN Back(<<chain, todo>>) ELSE RndCurve(Dim(cur), <<chain, todo>>))} :
     \E s \in {TLCEval(SpanOf(Jig(Next_(c), <<chain, todo>>)))} :
       IF (Valid(c) /\ Determined(Append(chain, s)) /\ ~(todo.kind = "join" /\ ClosedChain(Append(chain, s)))) = TRUE
       THEN chain' = Append(chain, s) /\ todo' = [todo EXCEPT !.tries = 0] /\ UNCHANGED phase
       ELSE IF todo.tries > 6 /\ chain # <<>> THEN todo' = [todo EXCEPT !.n = Len(chain)] /\ UNCHANGED <<chain, phase>>
       ELSE IF todo.tries > 6 THEN phase' = "stuck" /\ UNCHANGED <<chain, todo>>
       ELSE todo' = [todo EXCEPT !.tries = todo.tries + 1] /\ UNCHANGED <<chain, phase>>
  /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, given, steps, qs>>
(* the pieces in a random order and in random directions *)
RECURSIVE Shuffle(_, _)
Shuffle(s, st) == IF s = <<>> THEN <<>> ELSE LET i == RndInt(1, Len(s), st) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), st)
KGive ==
  /\ todo # NoOp /\ given = <<>> /\ Len(chain) = todo.n
  /\ \E o \in {TLCEval(Shuffle([i \in 1..Len(chain) |-> i], chain))} :
       given' = TLCEval([i \in 1..Len(chain) |-> [i |-> o[i], rev |-> RndInt(1, 2, chain) = 1]])
  /\ keep /\ UNCHANGED <<chain, todo, steps, qs>>
Look(s) == [c |-> s.c, g |-> s.g]
View(ch) == [i \in 1..Len(ch) |-> Look(ch[i])]
KStart ==    \* from here on the chain is aligned
  /\ given # <<>> /\ steps = <<>>
  /\ chain' = Align(chain, 1, Zero)
  /\ steps' = <<[op |-> "build", o |-> NoOp, pieces |-> View(chain), given |-> given, e |-> View(Align(chain, 1, Zero)), closed |-> ClosedChain(chain)]>>
  /\ keep /\ UNCHANGED <<todo, given, qs>>
(* operations *)
RECURSIVE CandsAll(_, _)
CandsAll(ch, i) == IF i > Len(ch) THEN <<>> ELSE Cands(ch[i].c) \o CandsAll(ch, i + 1)
Rec(o, ch, out) == chain' = ch /\ steps' = Append(steps, [op |-> o.op, o |-> o, e |-> View(out), closed |-> ClosedChain(out)])
KStep ==
  /\ steps # <<>> /\ Len(steps) <= MaxSteps
  /\ \E op \in {RndSeq(<<"reverse", "reverse", "transform", "transform", "trim", "trimwrap", "trimwrap", "serde">>, steps)} :
     IF op = "reverse" THEN Rec([op |-> op], RevChain(chain), RevChain(chain))
     ELSE IF op = "serde" THEN Rec([op |-> op], chain, chain)
     ELSE IF op = "transform" THEN
       \E M \in {RndOf(Mats(Dim(cur) - 1), steps)} : \E t \in {RndOf(Shifts(Dim(cur) - 1), steps)} :
         Rec([op |-> op, M |-> M, t |-> t], MapChain(chain, M, t), MapChain(chain, M, t))
     ELSE \E C \in {TLCEval(CandsAll(chain, 1))} : \E a \in {RndSeq(C, steps)} : \E b \in {RndSeq(C, <<steps>>)} :
          \E lo \in {IF Lt(a, b) THEN a ELSE b} : \E hi \in {IF Lt(a, b) THEN b ELSE a} :
          IF Eq(a, b) THEN UNCHANGED <<chain, steps>>
          ELSE \E out \in {TLCEval(IF op = "trim" THEN TrimChain(chain, lo, hi) ELSE TrimChain(chain, hi, lo))} :
               IF out = <<>> THEN UNCHANGED <<chain, steps>>
               ELSE LET o == [op |-> op, a |-> IF op = "trim" THEN lo ELSE hi, b |-> IF op = "trim" THEN hi ELSE lo]
                        al == Align(out, 1, Zero)
                        go == (op = "trim" \/ ClosedChain(chain)) /\ Determined(al)
                    IN  Rec([o EXCEPT !.op = op] @@ [go |-> go], IF go THEN al ELSE chain, out)
  /\ keep /\ UNCHANGED <<todo, given, qs>>
KAsk ==
  /\ Len(steps) = MaxSteps + 1 /\ qs = <<>>
  /\ qs' = TLCEval([k \in 1..4 |-> [x |-> IF k < 3 THEN [i \in 1..(Dim(cur) - 1) |-> RI(RndInt(-12, 12, steps))]
                                          ELSE VAdd(RndSeq(RndSeq(chain, steps).g, steps)[2], [i \in 1..(Dim(cur) - 1) |-> RQ(RndInt(-9, 9, steps), 8)])]])
  /\ keep /\ UNCHANGED <<chain, todo, given, steps>>
KEmit ==
  /\ phase = "run" /\ qs # <<>>
  /\ PrintT(ToJson([m |-> "compound", kind |-> todo.kind, steps |-> steps, last |-> View(chain), closed |-> ClosedChain(chain), qs |-> qs]))
  /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, chain, todo, given, steps, qs>>
KNext == ((GShape \/ GCreate \/ GChoose \/ GApply) /\ UNCHANGED <<chain, todo, given, steps, qs>>) \/ KPlan \/ KCut \/ KAdd \/ KGive \/ KStart \/ KStep \/ KAsk \/ KEmit

(* spans follow one another, in place and (once aligned) in parameter *)
JoinInv == \A i \in 1..(Len(chain) - 1) : VEq(Final(chain[i]), First(chain[i + 1])) /\ (steps # <<>> => Eq(DomHi(chain[i].c), DomLo(chain[i + 1].c)))
(* what must survive does *)
KeepInv == \A i \in 1..Len(chain) : \A j \in 1..Len(chain[i].g) :
  InDom(chain[i].c, chain[i].g[j][1]) /\ VEq(Point(chain[i].c, chain[i].g[j][1]), chain[i].g[j][2])
StartInv == steps # <<>> => Eq(DomLo(chain[1].c), Zero)
=============================================================================

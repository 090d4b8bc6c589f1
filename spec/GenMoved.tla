------------------------------ MODULE GenMoved ------------------------------
(* Regions whose boundaries are chains, mapped and reversed as a whole *)
EXTENDS GenTrim, Compound
CONSTANT MaxMoves
VARIABLES area, area0, moves, acc
mvars == <<tvars, area, area0, moves, acc>>
calm == UNCHANGED tvars
Ident == [M |-> << <<One, Zero>>, <<Zero, One>> >>, t |-> <<Zero, Zero>>, back |-> FALSE]
MInit == TInit /\ area = <<>> /\ area0 = <<>> /\ moves = <<>> /\ acc = Ident
MPart == (TExt \/ THole) /\ UNCHANGED <<area, area0, moves, acc>>
RECURSIVE CutUp(_, _, _)
CutUp(c, us, i) == IF i >= Len(us) THEN <<>> ELSE <<SpanOf(Restrict(c, us[i], us[i + 1]))>> \o CutUp(c, us, i + 1)
RECURSIVE PickUp(_, _, _)   \* in ascending order, as given
PickUp(C, i, st) == IF i > Len(C) THEN <<>> ELSE (IF RndInt(1, 3, st) = 1 THEN <<C[i]>> ELSE <<>>) \o PickUp(C, i + 1, st)
RECURSIVE Up(_)
Up(s) == IF s = <<>> THEN <<>> ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : Le(s[i], s[j]) IN <<s[m]>> \o Up(SelectSeq(s, LAMBDA x : ~Eq(x, s[m])))
ChainOf(c, st) ==
  LET us == TLCEval(PickUp(Up(InnerCands(c)), 1, st))
      ch == TLCEval(CutUp(c, <<DomLo(c)>> \o us \o <<DomHi(c)>>, 1))
  IN  IF us # <<>> /\ Determined(ch) THEN ch ELSE <<SpanOf(c)>>
(* the exterior first, then the holes *)
MStart ==
  /\ loop # NoOp /\ tries = 0 /\ area = <<>>
  /\ \E a \in {TLCEval(<<Align(ChainOf(loop.c, holes), 1, Zero)>> \o [i \in 1..Len(holes) |-> Align(ChainOf(holes[i].c, holes), 1, Zero)])} : area' = a /\ area0' = a
  /\ calm /\ UNCHANGED <<moves, acc>>
LinMul(A, B) == [i \in 1..2 |-> [j \in 1..2 |-> RAdd(RMul(A[i][1], B[1][j]), RMul(A[i][2], B[2][j]))]]
MMove ==
  /\ area # <<>> /\ Len(moves) < MaxMoves
  /\ \E o \in {IF RndInt(1, 3, moves) = 1 THEN [op |-> "invert"] ELSE [op |-> "transform", M |-> RndOf(Mats(2), moves), t |-> RndOf(Shifts(2), moves)]} :
     \E a \in {TLCEval([i \in 1..Len(area) |-> IF o.op = "invert" THEN RevChain(area[i]) ELSE MapChain(area[i], o.M, o.t)])} :
        /\ area' = a
        /\ moves' = Append(moves, [op |-> o.op, o |-> o, e |-> a])
        /\ acc' = TLCEval(IF o.op = "invert" THEN [acc EXCEPT !.back = ~acc.back] ELSE [acc EXCEPT !.M = LinMul(o.M, acc.M), !.t = MapP(o.M, o.t, acc.t)])
  /\ calm /\ UNCHANGED area0
MEmit ==
  /\ phase = "new" /\ Len(moves) = MaxMoves
  /\ PrintT(ToJson([m |-> "moved", start |-> area0, moves |-> moves]))
  /\ phase' = "done" /\ UNCHANGED <<cur, ghost, canon, pend, hist, shape, loop, holes, tries, trimmed, steps, how, probes, area, area0, moves, acc>>
MNext == MPart \/ MStart \/ MMove \/ MEmit
-----------------------------------------------------------------------------
(* a history of maps and reversals is the product of the maps, backwards or not: loop by loop, span by span, point by point *)
Place(ch, back, k, j) == LET n == Len(ch) IN IF back THEN LET s == ch[n + 1 - k] IN s.g[Len(s.g) + 1 - j][2] ELSE ch[k].g[j][2]
ProductInv == \A i \in 1..Len(area) : Len(area[i]) = Len(area0[i]) /\ \A k \in 1..Len(area[i]) : \A j \in 1..Len(area[i][k].g) :
  VEq(area[i][k].g[j][2], MapP(acc.M, acc.t, Place(area0[i], acc.back, k, j)))
(* what must survive does, and each boundary is still a closed chain from 0 on *)
SurviveInv == \A i \in 1..Len(area) : ClosedChain(area[i]) /\ Eq(DomLo(area[i][1].c), Zero) /\ \A k \in 1..Len(area[i]) :
  /\ k < Len(area[i]) => (Eq(DomHi(area[i][k].c), DomLo(area[i][k + 1].c)) /\ VEq(Final(area[i][k]), First(area[i][k + 1])))
  /\ \A j \in 1..Len(area[i][k].g) : VEq(Point(area[i][k].c, area[i][k].g[j][1]), area[i][k].g[j][2])
=============================================================================

------------------------------ MODULE Curve ------------------------------
(***************************************************************************)
(* A curve and its history of operations.                                   *)
(*                                                                          *)
(* cur    the curve (see Bspline)                                           *)
(* ghost  what must survive: a sequence of <<parameter, point>> pairs.  It  *)
(*        is fixed when the curve is created; every operation moves the     *)
(*        parameters and the points the way that operation is meant to      *)
(*        (identity for knot insertion, u |-> s-u for reversal, x |-> Mx+t  *)
(*        for transforms, restriction for splitting), never by looking at   *)
(*        the new control points.                                           *)
(* canon  TRUE while knots and control points of the result are determined  *)
(*        by the operations (splitting at an existing knot leaves freedom)  *)
(* pend   operation chosen next: [op, a, b] with rational arguments         *)
(* hist   observations for the implementation, one record per step          *)
(***************************************************************************)
EXTENDS Bspline, TLC, Json

CONSTANTS MaxOps          \* bound on the length of histories
VARIABLES phase, cur, ghost, canon, pend, hist

vars == <<phase, cur, ghost, canon, pend, hist>>
NoOp == [op |-> "none"]

-----------------------------------------------------------------------------
(* Parameters of interest: breaks, mid and quarter points of every span *)
Mid(a, b) == RMul(RAdd(a, b), RQ(1, 2))
RECURSIVE CandsR(_, _)
CandsR(B, i) ==
  IF i >= Len(B) THEN <<B[Len(B)]>>
  ELSE LET m == Mid(B[i], B[i + 1])
       IN  <<B[i], Mid(B[i], m), m, Mid(m, B[i + 1])>> \o CandsR(B, i + 1)
Cands(c) == CandsR(Breaks(c), 1)
InnerCands(c) == SelectSeq(Cands(c), LAMBDA u : InnerDom(c, u))
InnerBreaks(c) == SelectSeq(Breaks(c), LAMBDA u : InnerDom(c, u))

SeqSet(s) == {s[i] : i \in 1..Len(s)}
GhostOf(c) == LET C == Cands(c) IN [i \in 1..Len(C) |-> <<C[i], Point(c, C[i])>>]
KeepGhost(g, a, b) == SelectSeq(g, LAMBDA e : Le(a, e[1]) /\ Le(e[1], b))

-----------------------------------------------------------------------------
(* Invariants *)
ValidInv == phase = "run" => Valid(cur)
ShapeInv == phase = "run" =>
  \A i \in 1..Len(ghost) : InDom(cur, ghost[i][1]) /\ VEq(Point(cur, ghost[i][1]), ghost[i][2])

(* dyadic rationals are exact in the implementation's floating point *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 1 THEN TRUE ELSE n % 2 = 0 /\ Pow2(n \div 2)
NormalizeExact(c) == LET w == RSub(DomHi(c), DomLo(c)) IN Pow2(w[1])

-----------------------------------------------------------------------------
(* Which arguments an operation may take in the current state *)
Lim(c, us) ==   \* multiplicities stay at most p inside the domain
  \A i \in 1..Len(us) : Mult(Merge(c.U, us), us[i]) <= c.p
Pairs(c) == {<<a, b>> \in SeqSet(InnerCands(c)) \X SeqSet(InnerCands(c)) : TRUE}

AllPairs(c) == SeqSet(Cands(c)) \X SeqSet(Cands(c))

Mats(d) ==   \* linear maps: rotations (exact), scalings, reflections, shears
  IF d = 2 THEN { << <<RQ(3,5), RQ(-4,5)>>, <<RQ(4,5), RQ(3,5)>> >>,
                  << <<RI(0), RI(-1)>>, <<RI(1), RI(0)>> >>,
                  << <<RI(2), RI(0)>>, <<RI(0), RI(-3)>> >>,
                  << <<RI(1), RQ(1,2)>>, <<RI(0), RI(1)>> >>,
                  << <<RQ(1,2), RI(0)>>, <<RI(-1), RI(4)>> >> }
  ELSE { << <<RQ(3,5), RQ(-4,5), RI(0)>>, <<RQ(4,5), RQ(3,5), RI(0)>>, <<RI(0), RI(0), RI(1)>> >>,
         << <<RI(0), RI(0), RI(1)>>, <<RI(1), RI(0), RI(0)>>, <<RI(0), RI(1), RI(0)>> >>,
         << <<RI(1), RI(0), RI(0)>>, <<RI(0), RI(-2), RI(0)>>, <<RI(0), RI(0), RQ(1,2)>> >>,
         << <<RI(1), RQ(1,2), RI(0)>>, <<RI(0), RI(1), RI(-1)>>, <<RI(1), RI(0), RI(2)>> >>,
         << <<RQ(2,3), RQ(-1,3), RQ(2,3)>>, <<RQ(2,3), RQ(2,3), RQ(-1,3)>>, <<RQ(-1,3), RQ(2,3), RQ(2,3)>> >> }
Shifts(d) == IF d = 2 THEN {<<RI(0), RI(0)>>, <<RI(3), RI(-2)>>, <<RQ(-1,2), RI(7)>>}
             ELSE {<<RI(0), RI(0), RI(0)>>, <<RI(1), RI(-4), RI(2)>>, <<RQ(1,2), RI(5), RI(-3)>>}

(* arguments for op: a set of records (empty = not enabled) *)
Args(op, c, cn) ==
  CASE op = "insert"    -> {[op |-> op, a |-> u] : u \in {v \in SeqSet(InnerCands(c)) : Lim(c, <<v>>)}}
    [] op = "refine"    -> LET C == InnerCands(c)
                               n == Len(C)
                               W == {<<C[i], C[IF i + k > n THEN n ELSE i + k]>> : i \in 1..n, k \in {1, 2, 5}}
                                    \cup {Rep(C[i], m) : i \in 1..n, m \in 1..c.p}
                                    \cup (IF n \in 2..9 THEN {SubSeq(C, 1, i - 1) \o SubSeq(C, i + 1, n) : i \in 1..n} ELSE {})
                           IN  {[op |-> op, us |-> us] : us \in {w \in W : Lim(c, w)}}
    [] op = "remove"    -> IF cn THEN {[op |-> op, a |-> u, m |-> IF Mult(c.U, u) = 0 \/ ~InnerDom(c, u) THEN 0 ELSE Removable(c, u)] :
                                          u \in SeqSet(InnerBreaks(c)) \cup {DomLo(c), DomHi(c), RAdd(DomHi(c), One)}
                                                 \cup (IF InnerBreaks(c) = <<>> THEN SeqSet(InnerCands(c)) ELSE {})} ELSE {}
    [] op = "elevate"   -> {[op |-> op, t |-> t] : t \in {x \in 0..3 : c.p + x <= 6}}
    [] op = "split"     -> {[op |-> op, a |-> u, side |-> s] : u \in SeqSet(InnerCands(c)), s \in {1, 2}}
    [] op = "trim"      -> {[op |-> op, a |-> w[1], b |-> w[2]] : w \in {x \in AllPairs(c) : Lt(x[1], x[2])}}
    [] op = "trimwrap"  -> {[op |-> op, a |-> w[1], b |-> w[2]] : w \in {x \in Pairs(c) : Lt(x[2], x[1])}}
    [] op = "reverse"   -> {[op |-> op]}
    [] op = "normalize" -> IF NormalizeExact(c) THEN {[op |-> op]} ELSE {}
    [] op = "lift"      -> IF Dim(c) = 3 THEN {[op |-> op]} ELSE {}
    [] op = "cast"      -> {[op |-> op]}
    [] op = "serde"     -> {[op |-> op]}
    [] op = "clamp"     -> {[op |-> op]}
    [] op = "bezier"    -> {[op |-> op, i |-> i] : i \in 1..(Len(Breaks(c)) - 1)}
    [] op = "transform" -> {[op |-> op, M |-> M, t |-> t] : M \in Mats(Dim(c) - 1), t \in Shifts(Dim(c) - 1)}

-----------------------------------------------------------------------------
(* The effect of each operation on curve, ghost and canonicity:              *)
(* [c, g, cn, more], more = the other pieces it returns (each [c, g])        *)
Res(c, g, cn) == [c |-> c, g |-> g, cn |-> cn, more |-> <<>>]
Piece(c, a, b, g) == [c |-> Restrict(c, a, b), g |-> KeepGhost(g, a, b)]
Effect(o, c, g, cn) ==
  CASE o.op = "insert"    -> Res(Refine(c, <<o.a>>), g, cn)
    [] o.op = "refine"    -> Res(Refine(c, o.us), g, cn)
    [] o.op = "remove"    -> Res(IF o.m = 0 THEN c ELSE Remove(c, o.a, o.m), g, cn)
    [] o.op = "elevate"   -> IF IsClamped(c) \/ o.t = 0 THEN Res(Elevate(c, o.t), g, cn)
                             ELSE Res(Elevate(Clamp(c), o.t), g, FALSE)
    [] o.op = "split"     ->
         LET l == Piece(c, DomLo(c), o.a, g)  r == Piece(c, o.a, DomHi(c), g)
             k == IF o.side = 1 THEN l ELSE r
         IN  [c |-> k.c, g |-> k.g, more |-> <<l, r>>,
              cn |-> cn /\ IsClamped(c) /\ Mult(c.U, o.a) = 0]
    [] o.op = "trim"      ->
         LET k == Piece(c, o.a, o.b, g)
         IN  [c |-> k.c, g |-> k.g, more |-> <<k>>,
              cn |-> cn /\ Mult(c.U, o.a) = 0 /\ Mult(c.U, o.b) = 0]
    [] o.op = "trimwrap"  ->
         LET t == Piece(c, o.a, DomHi(c), g)  h == Piece(c, DomLo(c), o.b, g)
         IN  [c |-> t.c, g |-> t.g, more |-> <<t, h>>,
              cn |-> cn /\ IsClamped(c) /\ Mult(c.U, o.a) = 0 /\ Mult(c.U, o.b) = 0]
    [] o.op = "reverse"   ->
         LET s == RAdd(c.U[1], Last_(c.U))
         IN  Res(Reverse(c), Rev([i \in 1..Len(g) |-> <<RSub(s, g[i][1]), g[i][2]>>]), cn)
    [] o.op = "normalize" ->
         LET w == RSub(DomHi(c), DomLo(c))
         IN  Res(Normalize(c), [i \in 1..Len(g) |-> <<RDiv(RSub(g[i][1], DomLo(c)), w), g[i][2]>>], cn)
    [] o.op = "lift"      ->
         Res(Lift(c), [i \in 1..Len(g) |-> <<g[i][1], Append(g[i][2], Zero)>>], cn)
    [] o.op \in {"cast", "serde"} -> Res(c, g, cn)
    [] o.op = "clamp"     -> Res(IF IsClamped(c) THEN c ELSE Clamp(c), g, cn /\ IsClamped(c))
    [] o.op = "bezier"    ->
         LET B == Breaks(c)
             ps == [i \in 1..(Len(B) - 1) |-> Piece(c, B[i], B[i + 1], g)]
         IN  [c |-> ps[o.i].c, g |-> ps[o.i].g, more |-> ps, cn |-> cn]
    [] o.op = "transform" ->
         Res(Transform(c, o.M, o.t), [i \in 1..Len(g) |-> <<g[i][1], MapP(o.M, o.t, g[i][2])>>], cn)

-----------------------------------------------------------------------------
(* Observations of a curve the implementation must reproduce *)
SmoothAt(c, u) == ~InnerDom(c, u) \/ Mult(c.U, u) = 0
Sample(c, u) == [u |-> u, x |-> Point(c, u), d1 |-> Der1(c, u), d2 |-> Der2(c, u),
                 sm |-> SmoothAt(c, u)]
Obs(c, us) == [c |-> c, dom |-> <<DomLo(c), DomHi(c)>>, clamped |-> IsClamped(c),
               closed |-> VEq(Point(c, DomLo(c)), Point(c, DomHi(c))),
               s |-> [i \in 1..Len(us) |-> Sample(c, us[i])]]

(* where to look: the domain ends, candidates picked by number, and a generic one *)
SampleAt(c, rs) ==
  LET C == Cands(c) IN
  <<DomLo(c), DomHi(c), RLerp(DomLo(c), DomHi(c), RQ((rs[1] % 31) + 1, 32))>>
    \o [i \in 1..(Len(rs) - 1) |-> C[(rs[i + 1] % Len(C)) + 1]]

Create(c, rs) ==
  /\ phase = "new" /\ Valid(c) = TRUE       \* a value, not a disjunction for TLC to branch on
  /\ cur' = c /\ ghost' = GhostOf(c) /\ canon' = TRUE /\ pend' = NoOp
  /\ phase' = "run"
  /\ hist' = <<[op |-> "create", o |-> NoOp, canon |-> TRUE,
                e |-> Obs(c, SampleAt(c, rs)), g |-> GhostOf(c), more |-> <<>>]>>
Choose_(o) ==
  /\ phase = "run" /\ pend = NoOp /\ Len(hist) <= MaxOps
  /\ pend' = o /\ UNCHANGED <<phase, cur, ghost, canon, hist>>
Apply(rs) ==
  /\ phase = "run" /\ pend # NoOp
  /\ \E r \in {Effect(pend, cur, ghost, canon)} :
         /\ cur' = r.c /\ ghost' = r.g /\ canon' = r.cn
         /\ hist' = Append(hist, [op |-> pend.op, o |-> pend, canon |-> r.cn,
                                  e |-> Obs(r.c, SampleAt(r.c, rs)), g |-> r.g, more |-> r.more])
  /\ pend' = NoOp /\ UNCHANGED phase
=============================================================================

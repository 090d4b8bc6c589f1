----------------------------- MODULE Surface -----------------------------
(***************************************************************************)
(* Tensor-product rational B-spline surfaces and their history of           *)
(* operations.  A surface is a record [p, q, U, V, P]: degrees, knot        *)
(* sequences and a net P[i][j] of homogeneous points (i along u, j along v).*)
(* A surface is a curve in u whose "points" are whole rows of the net, so   *)
(* every operation in one direction is the corresponding curve operation.   *)
(***************************************************************************)
EXTENDS Tensor, TLC, Json

CONSTANTS MaxOps
VARIABLES phase, cur, ghost, pend, hist
vars == <<phase, cur, ghost, pend, hist>>
NoOp == [op |-> "none"]

-----------------------------------------------------------------------------
Mid(a, b) == RMul(RAdd(a, b), RQ(1, 2))
RECURSIVE MidsR(_, _)
MidsR(B, i) == IF i >= Len(B) THEN <<B[Len(B)]>> ELSE <<B[i], Mid(B[i], B[i + 1])>> \o MidsR(B, i + 1)
CandU(s) == MidsR(Breaks(AsU(s)), 1)
CandV(s) == MidsR(Breaks(AsU(Swap(s))), 1)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
InnerU(s) == SelectSeq(CandU(s), LAMBDA u : InnerDom(AsU(s), u))
InnerV(s) == SelectSeq(CandV(s), LAMBDA v : InnerDom(AsU(Swap(s)), v))

GhostOf(s) ==
  LET A == CandU(s)  B == CandV(s)  n == Len(B)
      row == TLCEval([i \in 1..Len(A) |-> RowCurve(s, HEval(AsU(s), A[i]))])
  IN  [k \in 1..(Len(A) * n) |-> LET i == ((k - 1) \div n) + 1  j == ((k - 1) % n) + 1
                                 IN  <<A[i], B[j], Point(row[i], B[j])>>]

(* histories are observed at a sparse subset of the pairs *)
Thin(g) == IF Len(g) <= 25 THEN g ELSE SelectSeq([i \in 1..Len(g) |-> [k |-> i, e |-> g[i]]],
                LAMBDA r : r.k = 1 \/ r.k = Len(g) \/ r.k % ((Len(g) \div 25) + 1) = 0)
ThinG(g) == LET t == Thin(g) IN IF Len(g) <= 25 THEN g ELSE [i \in 1..Len(t) |-> t[i].e]

ValidInv == phase = "run" => SValid(cur)
ShapeInv == phase = "run" => \A i \in 1..Len(ghost) : VEq(SPoint(cur, ghost[i][1], ghost[i][2]), ghost[i][3])

-----------------------------------------------------------------------------
Lim(U, p, us) == \A i \in 1..Len(us) : Mult(Merge(U, us), us[i]) <= p
Dirs == {"u", "v"}
Facing(s, d) == IF d = "u" THEN s ELSE Swap(s)        \* its own inverse
FacingG(g, d) == IF d = "u" THEN g ELSE [i \in 1..Len(g) |-> <<g[i][2], g[i][1], g[i][3]>>]
Mats == { << <<RQ(3,5), RQ(-4,5), RI(0)>>, <<RQ(4,5), RQ(3,5), RI(0)>>, <<RI(0), RI(0), RI(1)>> >>,
          << <<RI(0), RI(0), RI(1)>>, <<RI(1), RI(0), RI(0)>>, <<RI(0), RI(1), RI(0)>> >>,
          << <<RI(1), RI(0), RI(0)>>, <<RI(0), RI(-2), RI(0)>>, <<RI(0), RI(0), RQ(1,2)>> >>,
          << <<RI(1), RQ(1,2), RI(0)>>, <<RI(0), RI(1), RI(-1)>>, <<RI(1), RI(0), RI(2)>> >> }
Shifts == {<<RI(0), RI(0), RI(0)>>, <<RI(1), RI(-4), RI(2)>>, <<RQ(1,2), RI(5), RI(-3)>>}

Args(op, s) ==
  CASE op = "refine" -> UNION {
          LET t == Facing(s, d)
              C == InnerU(t)
              W == {<<C[i]>> : i \in 1..Len(C)} \cup {<<C[i], C[IF i + 1 > Len(C) THEN i ELSE i + 1]>> : i \in 1..Len(C)}
                   \cup {Rep(C[i], m) : i \in 1..Len(C), m \in 1..t.p}
          IN  {[op |-> op, d |-> d, us |-> w] : w \in {x \in W : Lim(t.U, t.p, x)}} : d \in Dirs}
    [] op = "split" -> UNION {{[op |-> op, d |-> d, a |-> a, side |-> k] : a \in SeqSet(InnerU(Facing(s, d))), k \in {1, 2}} : d \in Dirs}
    [] op = "flip" -> {[op |-> op, d |-> d] : d \in {"u", "v", "uv"}}
    [] op = "iso" -> UNION {{[op |-> op, d |-> d, a |-> a] : a \in SeqSet(CandU(Facing(s, d)))} : d \in Dirs}
    [] op = "transform" -> {[op |-> op, M |-> M, t |-> t] : M \in Mats, t \in Shifts}
    [] op \in {"invert", "boundary", "serde", "cast"} -> {[op |-> op]}

RevU(s) == OnU(s, Reverse)
MirrorG(g, s) == LET m == RAdd(s.U[1], Last_(s.U)) IN [i \in 1..Len(g) |-> <<RSub(m, g[i][1]), g[i][2], g[i][3]>>]
Between(g, a, b) == SelectSeq(g, LAMBDA e : Le(a, e[1]) /\ Le(e[1], b))
Res(s, g) == [s |-> s, g |-> g, more |-> <<>>]
Flip(s, g, d) ==
  LET one == IF d \in {"u", "uv"} THEN Res(RevU(s), MirrorG(g, s)) ELSE Res(s, g)
      t == Swap(one.s)
  IN  IF d \in {"v", "uv"} THEN Res(Swap(RevU(t)), FacingG(MirrorG(FacingG(one.g, "v"), t), "v")) ELSE one

(* the curve along which parameter d is a: samples <<other parameter, point>> *)
IsoSamples(s, d, a) ==
  LET t == Facing(s, d)
      c == RowCurve(t, HEval(AsU(t), a))
      B == MidsR(Breaks(c), 1)
  IN  [c |-> c, g |-> [i \in 1..Len(B) |-> <<B[i], Point(c, B[i])>>]]

Effect(o, s, g) ==
  CASE o.op = "refine" -> LET t == Facing(s, o.d) IN Res(Facing(OnU(t, LAMBDA c : Refine(c, o.us)), o.d), g)
    [] o.op = "split" ->
         LET t == Facing(s, o.d)  h == FacingG(g, o.d)
             l == [s |-> Facing(OnU(t, LAMBDA c : Restrict(c, DomLo(c), o.a)), o.d), g |-> FacingG(Between(h, SLoU(t), o.a), o.d)]
             r == [s |-> Facing(OnU(t, LAMBDA c : Restrict(c, o.a, DomHi(c))), o.d), g |-> FacingG(Between(h, o.a, SHiU(t)), o.d)]
             k == IF o.side = 1 THEN l ELSE r
         IN  [s |-> k.s, g |-> k.g, more |-> <<l, r>>]
    [] o.op = "flip" -> Flip(s, g, o.d)
    [] o.op = "invert" -> Flip(s, g, "uv")
    [] o.op = "transform" ->
         Res([s EXCEPT !.P = [i \in 1..Len(s.P) |-> [j \in 1..Len(s.P[1]) |-> MapH(o.M, o.t, s.P[i][j])]]],
             [i \in 1..Len(g) |-> <<g[i][1], g[i][2], MapP(o.M, o.t, g[i][3])>>])
    [] o.op \in {"serde", "cast"} -> Res(s, g)
    [] o.op = "iso" -> [s |-> s, g |-> g, more |-> <<IsoSamples(s, o.d, o.a)>>]
    [] o.op = "boundary" -> [s |-> s, g |-> g,
          more |-> <<IsoSamples(s, "u", SLoU(s)), IsoSamples(s, "v", SLoV(s)), IsoSamples(s, "u", SHiU(s)), IsoSamples(s, "v", SHiV(s))>>]

SmoothU(s, u) == ~InnerDom(AsU(s), u) \/ Mult(s.U, u) = 0
Obs(s, rs) ==
  LET A == CandU(s)  B == CandV(s)
      at(r1, r2) == <<A[(r1 % Len(A)) + 1], B[(r2 % Len(B)) + 1]>>
      W == << <<SLoU(s), SHiV(s)>>,
              <<RLerp(SLoU(s), SHiU(s), RQ((rs[1] % 31) + 1, 32)), RLerp(SLoV(s), SHiV(s), RQ((rs[2] % 15) + 1, 16))>>,
              at(rs[2], rs[3]) >>
  IN  [s |-> s, smp |-> [i \in 1..3 |-> [u |-> W[i][1], v |-> W[i][2], d |-> Partials(s, W[i][1], W[i][2]),
                         sm |-> SmoothU(s, W[i][1]) /\ SmoothU(Swap(s), W[i][2])]]]

Create(s, rs) ==
  /\ phase = "new" /\ SValid(s) = TRUE
  /\ cur' = s /\ ghost' = ThinG(GhostOf(s)) /\ pend' = NoOp /\ phase' = "run"
  /\ hist' = <<[op |-> "create", o |-> NoOp, e |-> Obs(s, rs), g |-> ThinG(GhostOf(s)), more |-> <<>>]>>
Choose_(o) == /\ phase = "run" /\ pend = NoOp /\ Len(hist) <= MaxOps
              /\ pend' = o /\ UNCHANGED <<phase, cur, ghost, hist>>
Apply(rs) ==
  /\ phase = "run" /\ pend # NoOp
  /\ \E r \in {Effect(pend, cur, ghost)} :
        /\ cur' = r.s /\ ghost' = r.g
        /\ hist' = Append(hist, [op |-> pend.op, o |-> pend, e |-> Obs(r.s, rs), g |-> r.g, more |-> r.more])
  /\ pend' = NoOp /\ UNCHANGED phase
=============================================================================

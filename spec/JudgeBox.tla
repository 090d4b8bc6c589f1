------------------------------ MODULE JudgeBox ------------------------------
(* Leaves of the recursive subdivisions of objects.  r.s is the behaviour.    *)
EXTENDS Boxes, Tensor, Judge
Tiny_ == RQ(1, 1000000000)
WidthOf(c) == RSub(DomHi(c), DomLo(c))
Near_(x, y, w) == LET d == RSub(x, y)  e == RMul(Tiny_, w) IN Lt(d, e) /\ Lt(RNeg(e), d)
Into(x, lo, hi) == IF Lt(x, lo) THEN lo ELSE IF Lt(hi, x) THEN hi ELSE x
RECURSIVE Most(_, _)
Most(v, k) == LET a == IF Lt(v[k], Zero) THEN RNeg(v[k]) ELSE v[k] IN IF k = 1 THEN a ELSE Upper(a, Most(v, k - 1))
Slack(b) == RMul(RQ(1, 10000000), RAdd(One, RAdd(Most(b.lo, Len(b.lo)), Most(b.hi, Len(b.hi)))))
PointAt(c, t) == Point(c, Into(t, DomLo(c), DomHi(c)))
SPointAt(s, u, v) == SPoint(s, Into(u, SLoU(s), SHiU(s)), Into(v, SLoV(s), SHiV(s)))
Steps == 0..4
SmallEnough(w, tol, whole) == IF tol = <<>> THEN Le(w, RMul(RAdd(One, Tiny_), RDiv(whole, RI(64)))) ELSE Le(w, RMul(RAdd(One, Tiny_), tol[1]))
Out(c, l, e) == \E i \in Steps : ~Holds_(Grown(l, e), PointAt(c, RLerp(l.a, l.b, RQ(i, 4))))
(* leaves [a, b, lo, hi] of a curve, in order                                 *)
CurveLeaves(r) ==
  LET c == r.s.o  w == TLCEval(WidthOf(c))  n == Len(r.leaves)  L == r.leaves  whole == TLCEval(BoxAround(Net(c)))  e == TLCEval(Slack(whole)) IN
  IF n = 0 THEN "no leaves"
  ELSE IF ~Near_(L[1].a, DomLo(c), w) \/ ~Near_(L[n].b, DomHi(c), w) THEN "the leaves do not reach the ends"
  ELSE IF \E i \in 1..(n - 1) : ~Near_(L[i].b, L[i + 1].a, w) THEN "the leaves leave a gap or overlap"
  ELSE IF \E i \in 1..n : ~Lt(L[i].a, L[i].b) THEN "an empty leaf"
  ELSE IF \E i \in 1..n : ~SmallEnough(RSub(L[i].b, L[i].a), r.s.tol, w) THEN "a leaf is larger than asked for"
  ELSE IF \E i \in 1..n : Out(c, L[i], e) THEN "a box of a leaf does not contain its part"
  ELSE IF \E i \in 1..n : ~Inner(L[i], Grown(IF IsClamped(c) THEN BoxAround(Net(Restrict(c, Into(L[i].a, DomLo(c), DomHi(c)), Into(L[i].b, DomLo(c), DomHi(c))))) ELSE whole, e)) THEN "a box of a leaf is not around its part"
  ELSE "ok"
SOut(s, l, e) == \E i \in Steps : \E j \in Steps : ~Holds_(Grown(l, e), SPointAt(s, RLerp(l.a, l.b, RQ(i, 4)), RLerp(l.c, l.d, RQ(j, 4))))
Less(a, b, w) == Lt(a, RSub(b, RMul(Tiny_, w)))
SurfLeaves(r) ==
  LET s == r.s.o  wu == TLCEval(RSub(SHiU(s), SLoU(s)))  wv == TLCEval(RSub(SHiV(s), SLoV(s)))  n == Len(r.leaves)  L == r.leaves
      whole == TLCEval(BoxAround(Cat([i \in 1..Len(s.P) |-> [j \in 1..Len(s.P[1]) |-> Dehom(s.P[i][j])]])))  e == TLCEval(Slack(whole))
      area == TLCEval(SumOf([i \in 1..n |-> RMul(RSub(L[i].b, L[i].a), RSub(L[i].d, L[i].c))], n))
  IN
  IF \E i \in 1..n : ~(Lt(L[i].a, L[i].b) /\ Lt(L[i].c, L[i].d)) THEN "an empty leaf"
  ELSE IF \E i \in 1..n : Less(L[i].a, SLoU(s), wu) \/ Less(SHiU(s), L[i].b, wu) \/ Less(L[i].c, SLoV(s), wv) \/ Less(SHiV(s), L[i].d, wv) THEN "a leaf is outside the domain"
  ELSE IF \E i \in 1..n : \E j \in 1..n : i < j /\ Less(L[i].a, L[j].b, wu) /\ Less(L[j].a, L[i].b, wu) /\ Less(L[i].c, L[j].d, wv) /\ Less(L[j].c, L[i].d, wv) THEN "leaves overlap"
  ELSE IF ~Near_(area, RMul(wu, wv), RMul(RI(1000), RMul(wu, wv))) THEN "the leaves do not cover the domain"
  ELSE IF \E i \in 1..n : ~SmallEnough(RSub(L[i].b, L[i].a), <<r.s.tol[1]>>, wu) \/ ~SmallEnough(RSub(L[i].d, L[i].c), <<r.s.tol[2]>>, wv) THEN "a leaf is larger than asked for"
  ELSE IF \E i \in 1..n : SOut(s, L[i], e) THEN "a box of a leaf does not contain its part"
  ELSE IF \E i \in 1..n : ~Inner(L[i], Grown(whole, e)) THEN "a box of a leaf is not around its part"
  ELSE "ok"
(* pairs [a, b] of leaves, of two objects that share a point                  *)
HoldsC(c, l, t) == LET m == RMul(Tiny_, WidthOf(c)) IN Le(RSub(l.a, m), t) /\ Le(t, RAdd(l.b, m))
HoldsS(s, l, q) == LET m == RMul(Tiny_, RSub(SHiU(s), SLoU(s)))  k == RMul(Tiny_, RSub(SHiV(s), SLoV(s))) IN
   Le(RSub(l.a, m), q[1]) /\ Le(q[1], RAdd(l.b, m)) /\ Le(RSub(l.c, k), q[2]) /\ Le(q[2], RAdd(l.d, k))
HoldsA(r, l) == IF r.s.of = "curve" THEN HoldsC(r.s.a, l, r.s.s[1]) ELSE HoldsS(r.s.a, l, r.s.s)
SmallA(r, l) == IF r.s.of = "curve" THEN SmallEnough(RSub(l.b, l.a), r.s.tola, WidthOf(r.s.a))
                ELSE SmallEnough(RSub(l.b, l.a), <<r.s.tola[1]>>, Zero) /\ SmallEnough(RSub(l.d, l.c), <<r.s.tola[2]>>, Zero)
Pairs(r) ==
  LET n == Len(r.pairs)  L == r.pairs  e == TLCEval(Slack(BoxAround(Net(r.s.b)))) IN
  IF ~(\E i \in 1..n : HoldsA(r, L[i].a) /\ HoldsC(r.s.b, L[i].b, r.s.t)) THEN "the shared point is in no pair of leaves"
  ELSE IF \E i \in 1..n : ~SmallA(r, L[i].a) \/ ~SmallEnough(RSub(L[i].b.b, L[i].b.a), r.s.tolb, WidthOf(r.s.b)) THEN "a leaf is larger than asked for"
  ELSE IF \E i \in 1..n : ~Meets(L[i].a, L[i].b, e) THEN "the boxes of a pair do not meet"
  ELSE IF \E i \in 1..(IF n > 24 THEN 24 ELSE n) : Out(r.s.b, L[i].b, e) \/ (IF r.s.of = "curve" THEN Out(r.s.a, L[i].a, e) ELSE SOut(r.s.a, L[i].a, e)) THEN "a box of a leaf does not contain its part"
  ELSE "ok"
BoxVerdict(r) == IF r.s.kind = "meet" THEN Pairs(r) ELSE IF r.s.of = "curve" THEN CurveLeaves(r) ELSE SurfLeaves(r)
=============================================================================

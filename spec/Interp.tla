------------------------------ MODULE Interp ------------------------------
(***************************************************************************)
(* Curves made from point lists: chord-length interpolation, periodic       *)
(* interpolation (three parametrisations), periodic curves of control       *)
(* points, and polylines.  A list is built point by point, then one maker   *)
(* is applied.                                                              *)
(***************************************************************************)
EXTENDS Bspline, Linear, TLC, Json
VARIABLES phase, pts, out
vars == <<phase, pts, out>>
NoOut == [kind |-> "none"]

Norm(v) == RSqrt(VDot(v, v))
Chord(a, b) == Norm(VSub(b, a))
RECURSIVE Cum(_, _)         \* 0, l1, l1 + l2, ...
Cum(l, n) == IF n = 0 THEN <<Zero>> ELSE LET r == Cum(l, n - 1) IN Append(r, RAdd(Last_(r), l[n]))
Fractions(l) == LET c == Cum(l, Len(l)) IN VScale(c, RDiv(One, Last_(c)))

(* spacing of the successive points (of the closed list if closed) *)
Lens(P, closed, style) ==
  LET n == IF closed THEN Len(P) ELSE Len(P) - 1
      l(i) == Chord(P[i], P[(i % Len(P)) + 1])
  IN  [i \in 1..n |-> IF style = "uniform" THEN One ELSE IF style = "centripetal" THEN RSqrt(l(i)) ELSE l(i)]

Unit(i, n) == [j \in 1..n |-> IF i = j THEN One ELSE Zero]
Hom(x) == x \o <<One>>
RECURSIVE SumU(_, _, _)
SumU(T, i, k) == IF k = 0 THEN Zero ELSE RAdd(T[i + k - 1], SumU(T, i, k - 1))

(* clamped interpolation at the parameters T with averaged knots *)
OpenKnots(T, p) == LET n == Len(T) IN
  Rep(Zero, p + 1) \o [i \in 1..(n - p - 1) |-> RDiv(SumU(T, i + 1, p), RI(p))] \o Rep(One, p + 1)
OpenRows(T, p) == LET n == Len(T)
                      c == [p |-> p, U |-> OpenKnots(T, p), P |-> [j \in 1..n |-> Unit(j, n)]]
                  IN  [i \in 1..n |-> HEval(c, T[i])]
OpenInterp(P, p) ==
  LET T == Fractions(Lens(P, FALSE, "chordal"))
      S == Solve(OpenRows(T, p), P)
  IN  [T |-> T, c |-> IF S = <<>> THEN NoOut ELSE [p |-> p, U |-> OpenKnots(T, p), P |-> [i \in 1..Len(P) |-> Hom(S[i])]]]

(* periodic interpolation: knots at the (accumulated) parameters, continued *)
(* periodically on both sides                                               *)
PeriodicKnots(T, p) ==    \* T: n+1 fractions from 0 to 1
  LET n == Len(T) - 1 IN
  [k \in 1..(n + 2 * p + 1) |-> LET i == k - 1 - p IN RAdd(T[(i % n) + 1], RI(i \div n))]
PeriodicCurve(U, p, n, P) == [p |-> p, U |-> U, P |-> [j \in 1..(n + p) |-> P[((j - 1) % n) + 1]]]
PeriodicInterp(P, p, style) ==
  LET n == Len(P)
      T == Fractions(Lens(P, TRUE, style))
      U == PeriodicKnots(T, p)
      c == PeriodicCurve(U, p, n, [j \in 1..n |-> Unit(j, n)])
      S == Solve([i \in 1..n |-> HEval(c, T[i])], P)
  IN  [T |-> T, c |-> IF S = <<>> THEN NoOut ELSE PeriodicCurve(U, p, n, [i \in 1..n |-> Hom(S[i])])]

Polyline(P, norm) ==
  LET K == Cum(Lens(P, FALSE, "chordal"), Len(P) - 1)
      V == IF norm THEN VScale(K, RDiv(One, Last_(K))) ELSE K
  IN  [p |-> 1, U |-> <<Zero>> \o V \o <<Last_(V)>>, P |-> [i \in 1..Len(P) |-> Hom(P[i])]]
Periodic(P, p) == PeriodicCurve([i \in 1..(Len(P) + 2 * p + 1) |-> RI(i - 1)], p, Len(P), [i \in 1..Len(P) |-> Hom(P[i])])

Breaks2(c) == LET B == Distinct(SelectSeq(c.U, LAMBDA x : InDom(c, x))) IN
  [i \in 1..(2 * Len(B) - 1) |-> IF i % 2 = 1 THEN B[(i + 1) \div 2] ELSE RMul(RAdd(B[i \div 2], B[i \div 2 + 1]), RQ(1, 2))]
Samples(c) == LET A == Breaks2(c) IN [i \in 1..Len(A) |-> <<A[i], Point(c, A[i])>>]
RAbs(x) == IF Lt(x, Zero) THEN RNeg(x) ELSE x
RECURSIVE MaxSeq(_)      \* (rationals of very different size cannot be put in a TLC set)
MaxSeq(s) == IF Len(s) = 1 THEN RAbs(s[1]) ELSE LET r == MaxSeq(Tail(s)) IN IF Lt(r, RAbs(s[1])) THEN RAbs(s[1]) ELSE r
Size(c) == IF c = NoOut THEN Zero ELSE MaxSeq([i \in 1..Len(c.P) |-> MaxSeq(c.P[i])])

(* what a maker must deliver.  pass: the points at fractions of the domain;  *)
(* samples: the points at parameters (where the curve is fully determined);  *)
(* smooth: how many derivatives agree at the seam                            *)
Result(m, P) ==
  CASE m.kind \in {"open", "periodic-i"} /\ Len(P) <= m.p -> [refused |-> TRUE]
    [] m.kind = "periodic" /\ Len(P) <= m.p -> [refused |-> TRUE]
    [] m.kind = "open" ->
         LET r == OpenInterp(P, m.p)
         IN  [refused |-> FALSE, singular |-> r.c = NoOut, size |-> Size(r.c), c |-> r.c,
              pass |-> [i \in 1..Len(P) |-> <<r.T[i], P[i]>>], samples |-> <<>>, smooth |-> -1]
    [] m.kind = "periodic-i" ->
         LET r == PeriodicInterp(P, m.p, m.style)
         IN  [refused |-> FALSE, singular |-> r.c = NoOut, size |-> Size(r.c), c |-> r.c,
              pass |-> [i \in 1..(Len(P) + 1) |-> <<r.T[i], P[((i - 1) % Len(P)) + 1]>>], samples |-> <<>>, smooth |-> m.p - 1]
    [] m.kind = "periodic" ->
         LET c == Periodic(P, m.p)
         IN  [refused |-> FALSE, singular |-> FALSE, size |-> Size(c), c |-> c, pass |-> <<>>, samples |-> Samples(c), smooth |-> m.p - 1]
    [] m.kind = "polyline" ->
         LET c == Polyline(P, m.norm)
         IN  [refused |-> FALSE, singular |-> FALSE, size |-> Size(c), c |-> c, pass |-> <<>>, samples |-> Samples(c), smooth |-> -1]

(* the specified curve really does what the property says *)
PassInv ==
  (phase = "made" /\ ~out.r.refused /\ ~out.r.singular) =>
     LET c == out.r.c
         lo == DomLo(c)  hi == DomHi(c)
     IN  /\ Valid(c)
         /\ \A i \in 1..Len(out.r.pass) : VEq(Point(c, RLerp(lo, hi, out.r.pass[i][1])), out.r.pass[i][2])
         /\ out.r.smooth >= 0 => VEq(Point(c, lo), Point(c, hi))
         /\ out.r.smooth >= 1 => VEq(Der1(c, lo), Der1K(c, SpanLeft(c, hi), hi))
         /\ out.r.smooth >= 2 => VEq(Der2(c, lo), Der2K(c, SpanLeft(c, hi), hi))

Differ(a, b) == ~VEq(a, b)
AddPoint(x) == /\ phase = "new" /\ (Len(pts) = 0 \/ Differ(pts[Len(pts)], x)) = TRUE /\ pts' = Append(pts, x) /\ UNCHANGED <<phase, out>>
CanMake(m) == /\ Len(pts) >= 2
              /\ m.kind \in {"periodic-i", "periodic"} => Differ(pts[1], pts[Len(pts)])
Make(m) ==
  /\ phase = "new" /\ CanMake(m) = TRUE
  /\ \E r \in {Result(m, pts)} : out' = [make |-> m, r |-> r]
  /\ phase' = "made" /\ UNCHANGED pts
Emitted == [m |-> "interp", make |-> out.make, pts |-> pts,
            r |-> [f \in DOMAIN out.r \ {"c"} |-> out.r[f]]]
Makers(D) == {[kind |-> "open", p |-> p] : p \in D} \cup {[kind |-> "periodic", p |-> p] : p \in D}
             \cup {[kind |-> "periodic-i", p |-> p, style |-> s] : p \in D, s \in {"uniform", "chordal", "centripetal"}}
             \cup {[kind |-> "polyline", norm |-> b] : b \in BOOLEAN}
Init == phase = "new" /\ pts = <<>> /\ out = NoOut
=============================================================================

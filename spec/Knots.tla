-------------------------------- MODULE Knots --------------------------------
(***************************************************************************)
(* A knot vector: a sorted list U that grows by adding values and may be     *)
(* inverted.  Queries are defined on the list alone.  Indices are reported   *)
(* from zero, as in the implementation.                                      *)
(***************************************************************************)
EXTENDS Bspline, TLC
KLo(U, p) == U[p + 1]
KHi(U, p) == U[Len(U) - p]
KNum(U, p) == Len(U) - p - 1
(* degrees for which U is a knot vector of continuous curves                 *)
Usable(U, p) == /\ Len(U) >= 2 * p + 2 /\ Lt(KLo(U, p), KHi(U, p))
                /\ \A i \in 1..Len(U) : (Lt(KLo(U, p), U[i]) /\ Lt(U[i], KHi(U, p))) => Mult(U, U[i]) <= p
KClamp(U, p, u) == IF Lt(u, KLo(U, p)) THEN KLo(U, p) ELSE IF Lt(KHi(U, p), u) THEN KHi(U, p) ELSE u
(* the non-empty span of the domain that holds u, or the one nearest to it    *)
KSpan(U, p, u) == SpanDown(U, KClamp(U, p, u), KNum(U, p))
(* the last span may be entered from the right end only                      *)
KSpanIn(U, p, u) == LET v == KClamp(U, p, u) IN IF Eq(v, KHi(U, p)) THEN SpanLeftR(U, v, KNum(U, p)) ELSE SpanDown(U, v, KNum(U, p))
KFloor(U, u) == Cardinality({i \in 1..Len(U) : Le(U[i], u)})      \* how many values are not above u
KAdd(U, u) == InsertSorted(U, u)
KInvert(U) == [i \in 1..Len(U) |-> RSub(RAdd(U[1], Last_(U)), U[Len(U) + 1 - i])]
KUniform(n, p) == Rep(Zero, p) \o [i \in 1..n |-> RI(i - 1)] \o Rep(RI(n - 1), p)
KMults(U) == LET D == Distinct(U) IN [i \in 1..Len(D) |-> [k |-> D[i], m |-> Mult(U, D[i])]]
KClamped(U, p) == Mult(U, U[1]) > p /\ Mult(U, Last_(U)) > p

(* the basis functions i = k-p..k that do not vanish on span k, by Cox and de  *)
(* Boor from those of degree p - 1; d-th derivatives from (d-1)-th ones        *)
Part_(x, y, w) == IF Eq(w, Zero) THEN Zero ELSE RDiv(RMul(x, y), w)
RECURSIVE Vec_(_, _, _, _, _)
Vec_(U, k, p, u, d) ==
  IF p = 0 THEN IF d = 0 THEN <<One>> ELSE <<Zero>>
  ELSE LET W == TLCEval(Vec_(U, k, p - 1, u, IF d = 0 THEN 0 ELSE d - 1))
           a(j) == IF j = 1 THEN Zero ELSE W[j - 1]
           b(j) == IF j = p + 1 THEN Zero ELSE W[j]
           at(j) == LET i == k - p + j - 1  wa == RSub(U[i + p], U[i])  wb == RSub(U[i + p + 1], U[i + 1]) IN
                    IF d = 0 THEN RAdd(Part_(RSub(u, U[i]), a(j), wa), Part_(RSub(U[i + p + 1], u), b(j), wb))
                    ELSE RMul(RI(p), RSub(Part_(One, a(j), wa), Part_(One, b(j), wb)))
       IN  TLCEval([j \in 1..(p + 1) |-> at(j)])
Rows(U, p, u, k, d) == TLCEval([e \in 1..(d + 1) |-> Vec_(U, k, p, u, e - 1)])
RECURSIVE Total(_)
Total(s) == IF Len(s) = 0 THEN Zero ELSE RAdd(s[1], Total(Tail(s)))
Grev(U, p, i) == RDiv(Total(SubSeq(U, i + 1, i + p)), RI(p))
RowsOk(U, p, u, k, d) ==
  LET R == TLCEval(Rows(U, p, u, k, d)) IN
  /\ \A j \in 1..(p + 1) : ~Lt(R[1][j], Zero)
  /\ Eq(Total(R[1]), One)
  /\ \A e \in 2..(d + 1) : Eq(Total(R[e]), Zero)
  \* they reproduce the identity
  /\ Eq(Total([j \in 1..(p + 1) |-> RMul(R[1][j], Grev(U, p, k - p + j - 1))]), u)
  \* and are those of the polar form
  /\ LET c == [p |-> p, U |-> U, P |-> [i \in 1..KNum(U, p) |-> <<RI(i * i), RI(i % 3)>>]]
         h == HEvalK(c, k, u)
     IN  \A x \in 1..2 : Eq(h[x], Total([j \in 1..(p + 1) |-> RMul(R[1][j], c.P[k - p + j - 1][x])]))
=============================================================================

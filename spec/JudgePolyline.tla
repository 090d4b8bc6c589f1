--------------------------- MODULE JudgePolyline ---------------------------
(* Polylines of chains of curves.  r.s.ch: the curves, r.s.tol: the tolerance, *)
(* r.pts: the vertices, r.w: their places (none, if they are not in order on   *)
(* the chain), r.again: whether the last vertex is the first one once more     *)
EXTENDS Polyline, Judge
NearP(x, y, e) == Len(x) = Len(y) /\ Lt(Sq(VSub(x, y)), e)
PieceBad(c, a, b, tol, r, e) == c.p \in 2..3 /\ ~HeldDown(c, IntoDom(c, a), IntoDom(c, b), tol, r, e)
PolyVerdict(r) ==
  LET ch == r.s.ch  w == r.w  n == Len(w)  tol == r.s.tol
      big == TLCEval([k \in 1..Len(ch) |-> RMul(Most_(ch[k]), Most_(ch[k]))])
      sp == TLCEval([k \in 1..Len(ch) |-> Spread(ch[k])])
      f == TLCEval([i \in 1..n |-> IF i = 1 THEN w[1] ELSE From_(ch, w[i - 1], w[i])])   \* where the piece ending at vertex i starts
  IN  IF n = 0 THEN "the vertices are not in order on the curve, or a knot is missing"
      ELSE IF n # Len(r.pts) \/ ~InOrder(ch, w) THEN "the vertices do not lead from the start to the end in order"
      ELSE IF ~KnotsKept(ch, w) THEN "no vertex at a knot"
      ELSE IF \E i \in 1..n : ~NearP(r.pts[i], At__(ch, w[i]), RMul(RQ(1, 1000000000), RMul(RQ(1, 100000), big[w[i][1]]))) THEN "a vertex is off the curve"
      ELSE IF r.closed /\ ~r.again THEN "the polyline of a closed chain does not end with its first vertex"
      ELSE IF \E k \in 1..Len(ch) : Straight(ch[k]) /\ ch[k].p > 1 /\ InSpan(w, k, n) # Len(Breaks(ch[k])) - 1 THEN "a straight part is divided"
      ELSE IF \E i \in 2..n : PieceBad(ch[w[i][1]], f[i][2], w[i][2], tol, sp[w[i][1]], RMul(RMul(Small_, RQ(1, 10000)), big[w[i][1]])) THEN "a piece is not flat"
      ELSE IF \E i \in 2..(n - 1) : w[i][1] = w[i + 1][1] /\ ch[w[i][1]].p > 1 /\ Needless(ch[w[i][1]], f[i][2], w[i][2], w[i + 1][2], tol) THEN "a flat piece is divided"
      ELSE "ok"
=============================================================================

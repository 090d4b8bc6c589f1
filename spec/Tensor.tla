------------------------------- MODULE Tensor -------------------------------
(* Tensor-product surfaces as curves of rows; see Surface.tla *)
EXTENDS Bspline
RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Cut(v, d) == [i \in 1..(Len(v) \div d) |-> SubSeq(v, (i - 1) * d + 1, i * d)]
SDim(s) == Len(s.P[1][1])
Transpose(P) == [j \in 1..Len(P[1]) |-> [i \in 1..Len(P) |-> P[i][j]]]
Swap(s) == [p |-> s.q, q |-> s.p, U |-> s.V, V |-> s.U, P |-> Transpose(s.P)]
AsU(s) == [p |-> s.p, U |-> s.U, P |-> [i \in 1..Len(s.P) |-> Cat(s.P[i])]]
FromU(s, c) == [s EXCEPT !.p = c.p, !.U = c.U, !.P = [i \in 1..Len(c.P) |-> Cut(c.P[i], SDim(s))]]
OnU(s, Op(_)) == FromU(s, Op(AsU(s)))
OnV(s, Op(_)) == Swap(OnU(Swap(s), Op))

(* the v-curve obtained from a homogeneous u-value (a row) *)
RowCurve(s, h) == [p |-> s.q, U |-> s.V, P |-> Cut(h, SDim(s))]
SPoint(s, u, v) == Point(RowCurve(s, HEval(AsU(s), u)), v)

SLoU(s) == s.U[s.p + 1]
SHiU(s) == s.U[Len(s.P) + 1]
SLoV(s) == s.V[s.q + 1]
SHiV(s) == s.V[Len(s.P[1]) + 1]

(* Cartesian partial derivatives up to order two, by the quotient rule from *)
(* the homogeneous ones                                                     *)
Partials(s, u, v) ==
  LET a == AsU(s)
      k == Span(a, u)
      c0 == RowCurve(s, HEvalK(a, k, u))
      c1 == RowCurve(s, HDer1K(a, k, u))
      c2 == RowCurve(s, HDer2K(a, k, u))
      l == Span(c0, v)
      h00 == HEvalK(c0, l, v) h01 == HDer1K(c0, l, v) h02 == HDer2K(c0, l, v)
      h10 == HEvalK(c1, l, v) h11 == HDer1K(c1, l, v)
      h20 == HEvalK(c2, l, v)
      w == Last_(h00)
      x == Dehom(h00)
      Q(y) == VScale(y, RDiv(One, w))
      xu == Q(VSub(Head_(h10), VScale(x, Last_(h10))))
      xv == Q(VSub(Head_(h01), VScale(x, Last_(h01))))
      xuu == Q(VSub(VSub(Head_(h20), VScale(xu, RMul(RI(2), Last_(h10)))), VScale(x, Last_(h20))))
      xvv == Q(VSub(VSub(Head_(h02), VScale(xv, RMul(RI(2), Last_(h01)))), VScale(x, Last_(h02))))
      xuv == Q(VSub(VSub(VSub(Head_(h11), VScale(xv, Last_(h10))), VScale(xu, Last_(h01))), VScale(x, Last_(h11))))
  IN  [x |-> x, u |-> xu, v |-> xv, uu |-> xuu, uv |-> xuv, vv |-> xvv]

SValid(s) ==
  /\ s.p >= 1 /\ s.q >= 1
  /\ \A i \in 1..Len(s.P) : Len(s.P[i]) = Len(s.P[1])
  /\ \A i \in 1..Len(s.P), j \in 1..Len(s.P[1]) : Len(s.P[i][j]) = SDim(s) /\ Lt(Zero, s.P[i][j][SDim(s)])
  /\ Valid(AsU(s)) /\ Valid(AsU(Swap(s)))
=============================================================================

------------------------------- MODULE Rat -------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A rational is a pair <<n, d>> in lowest      *)
(* terms with d > 0.                                                        *)
(*                                                                          *)
(* The TLA+ definitions below are the meaning of the operators.  TLC's      *)
(* integers have 32 bits, so Rat.java overrides every operator of this      *)
(* module with the same function computed on unbounded integers; a          *)
(* component that does not fit a TLC integer is then kept as a sequence of  *)
(* base-2^30 limbs <<sign, l0, l1, ...>>.  SpecTest.tla compares the two    *)
(* definitions on every small operand.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE GcdT(_, _)
GcdT(a, b) == IF b = 0 THEN a ELSE GcdT(b, a % b)

(* n/d reduced, for integers n and d # 0 *)
RQ(n, d) ==
  LET g == GcdT(Abs(n), Abs(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN  <<s * (n \div g), s * (d \div g)>>
RI(n)      == <<n, 1>>
RAdd(a, b) == RQ(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RQ(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == RQ(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == RQ(a[1] * b[2], a[2] * b[1])
RNeg(a)    == <<-a[1], a[2]>>
(* sign of a - b: -1, 0 or 1 *)
RCmp(a, b) ==
  LET d == a[1] * b[2] - b[1] * a[2] IN IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0
(* a * (1-t) + b * t *)
RLerp(a, b, t) == RAdd(RMul(a, RSub(RI(1), t)), RMul(b, t))
(* floor of the rational *)
RFloor(a)  == a[1] \div a[2]
(* square root: exact if the argument is the square of a rational, otherwise *)
(* the multiple of 2^-60 just below it                                       *)
IsSqrt(a, r) == \/ RCmp(RMul(r, r), a) = 0
                \/ LET s == RAdd(r, RDiv(RI(1), RMul(RI(1073741824), RI(1073741824))))
                   IN  RCmp(RMul(r, r), a) < 0 /\ RCmp(a, RMul(s, s)) < 0
RSqrt(a) == CHOOSE r \in {RQ(n, d) : n, d \in Int} : IsSqrt(a, r)
(* the same on vectors (sequences of rationals of the same length) *)
VAdd(v, w)   == [i \in 1..Len(v) |-> RAdd(v[i], w[i])]
VSub(v, w)   == [i \in 1..Len(v) |-> RSub(v[i], w[i])]
VScale(v, s) == [i \in 1..Len(v) |-> RMul(v[i], s)]
VLerp(v, w, t) == [i \in 1..Len(v) |-> RLerp(v[i], w[i], t)]
RECURSIVE VDotR(_, _, _)
VDotR(v, w, i) == IF i = 0 THEN RI(0) ELSE RAdd(VDotR(v, w, i - 1), RMul(v[i], w[i]))
VDot(v, w)   == VDotR(v, w, Len(v))
VEq(v, w)    == \A i \in 1..Len(v) : RCmp(v[i], w[i]) = 0
=============================================================================

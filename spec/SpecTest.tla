------------------------------ MODULE SpecTest ------------------------------
(***************************************************************************)
(* The operators that Rat.java, Bspline.java and Plane.java compute, against *)
(* their own TLA+ definitions.  The runner writes RatT, BsplineT and PlaneT, *)
(* copies of the modules under names no Java class overrides; the last two use *)
(* the rationals that RatInv has compared.                                   *)
(***************************************************************************)
EXTENDS Plane, Rnd
CONSTANTS MaxN, MaxD
VARIABLES a, b
T == INSTANCE RatT
B == INSTANCE BsplineT
L == INSTANCE PlaneT

Pairs == {<<n, d>> : n \in (-MaxN)..MaxN, d \in 1..MaxD}
SInit == a \in Pairs /\ b \in Pairs
SNext == UNCHANGED <<a, b>>

X == RQ(a[1], a[2])
Y == RQ(b[1], b[2])
(* every rational operator on every pair of small operands *)
RatInv ==
  /\ X = T!RQ(a[1], a[2]) /\ T!RQ(a[1], -a[2]) = RQ(a[1], -a[2]) /\ RI(a[1]) = T!RI(a[1])
  /\ RAdd(X, Y) = T!RAdd(X, Y) /\ RSub(X, Y) = T!RSub(X, Y) /\ RMul(X, Y) = T!RMul(X, Y)
  /\ (b[1] # 0 => RDiv(X, Y) = T!RDiv(X, Y))
  /\ RNeg(X) = T!RNeg(X) /\ RCmp(X, Y) = T!RCmp(X, Y) /\ RFloor(X) = T!RFloor(X)
  /\ RLerp(X, Y, RQ(1, 3)) = T!RLerp(X, Y, RQ(1, 3))
VecInv ==
  LET v == <<X, Y, RQ(2, 3)>>  w == <<Y, RI(1), X>> IN
  /\ VAdd(v, w) = T!VAdd(v, w) /\ VSub(v, w) = T!VSub(v, w) /\ VScale(v, Y) = T!VScale(v, Y)
  /\ VLerp(<<X>>, <<Y>>, X) = T!VLerp(<<X>>, <<Y>>, X)
  /\ VDot(<<X, Y>>, <<Y, X>>) = T!VDot(<<X, Y>>, <<Y, X>>)
  /\ VEq(v, w) = T!VEq(v, w) /\ VEq(v, v) /\ VEq(v, VAdd(w, VSub(v, w)))
(* the square root, which TLC cannot choose, against its characterisation; the *)
(* arithmetic beyond 32 bits against the laws of a field                       *)
Big(x) == RAdd(RMul(x, RMul(RI(1000000007), RI(998244353))), RQ(1, 1000003))
RootInv == a[1] >= 0 => IsSqrt(X, RSqrt(X)) /\ VEq(<<RSqrt(RMul(X, X))>>, <<X>>) /\ IsSqrt(Big(X), RSqrt(Big(X)))
FieldInv ==
  LET x == Big(X)  y == Big(Y) IN
  /\ VEq(<<RSub(RAdd(x, y), y)>>, <<x>>) /\ VEq(<<RDiv(RMul(x, y), y)>>, <<x>>)
  /\ VEq(<<RMul(x, RAdd(y, X))>>, <<RAdd(RMul(y, x), RMul(X, x))>>)
  /\ RCmp(x, y) = RCmp(X, Y) /\ RCmp(y, x) = -RCmp(X, Y) /\ VEq(<<RNeg(RNeg(x))>>, <<x>>)
  /\ (a[1] > 0 => RFloor(RDiv(x, x)) = 1 /\ RFloor(RDiv(RAdd(RMul(RI(5), x), RQ(1, 7)), x)) = 5)
(* the polar form of small curves of degree 1 to 3 *)
Cv(p) == [p |-> p, U |-> Rep(RI(0), p + 1) \o <<RI(1)>> \o Rep(RI(3), p + 1),
          P |-> [i \in 1..(p + 2) |-> <<RI((a[1] * i) % 5), RI((b[1] + i * i) % 3), RI(1 + (i % 2))>>]]
PolarInv == \A p \in 1..3 : LET c == Cv(p)  u == RQ(1 + (a[2] % 2), 2) IN
  /\ Blossom(c, p + 1, Rep(u, p)) = B!Blossom(c, p + 1, Rep(u, p))
  /\ Blossom(c, p + 2, [i \in 1..p |-> RI(i)]) = B!Blossom(c, p + 2, [i \in 1..p |-> RI(i)])
(* products of Bernstein forms and the isolation of their roots *)
B1 == <<RI(a[1]), RI(b[2]), RI(-b[1])>>
B2 == <<RI(a[2]), RI(b[1])>>
BernInv ==
  /\ BMul(B1, B2) = L!BMul(B1, B2) /\ BMul(B2, B2) = L!BMul(B2, B2)
  /\ \A k \in {1, 3} : Isolate(B1, RI(0), RI(1), RQ(1, 16), k) = L!Isolate(B1, RI(0), RI(1), RQ(1, 16), k)
  /\ Isolate(BMul(B1, B2), RI(0), RI(1), RQ(1, 4), 2) = L!Isolate(BMul(B1, B2), RI(0), RI(1), RQ(1, 4), 2)
=============================================================================

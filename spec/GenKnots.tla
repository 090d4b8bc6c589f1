------------------------------ MODULE GenKnots ------------------------------
(* Histories of knot vectors with all their queries after each step *)
EXTENDS Knots, Rnd, Json
CONSTANTS MaxDeg, MaxLen, MaxSteps
VARIABLES U, hist, phase
kvars == <<U, hist, phase>>

Eps == RQ(1, 1048576)
Asked(V, us) == [i \in 1..Len(us) |-> [u |-> us[i], n |-> KFloor(V, us[i])]]
Degree(V, p, us, ws) ==
  LET bs == SelectSeq(us \o ws, LAMBDA u : Le(KLo(V, p), u) /\ Le(u, KHi(V, p))) IN
  [p |-> p, lo |-> KLo(V, p), hi |-> KHi(V, p), clamped |-> KClamped(V, p),
   at |-> [i \in 1..Len(us) |-> [u |-> us[i], v |-> KClamp(V, p, us[i]), k |-> KSpanIn(V, p, us[i]) - 1]],
   basis |-> [i \in 1..Len(bs) |-> LET k == KSpanIn(V, p, bs[i]) IN [u |-> bs[i], k |-> k - 1, rows |-> Rows(V, p, bs[i], k, p + 1)]]]
(* at values spaced evenly over the domain: D a power of two *)
Even(V, p, D) == [i \in 1..(D + 1) |-> LET u == RLerp(KLo(V, p), KHi(V, p), RQ(i - 1, D))  k == KSpanIn(V, p, u) IN
                     [u |-> u, k |-> k - 1, rows |-> Rows(V, p, u, k, 2)]]
Grid_(V, ps, D) == [i \in 1..Len(ps) |-> [p |-> ps[i], d |-> D, at |-> Even(V, ps[i], D)]]
Degs(V) == SelectSeq([i \in 1..MaxDeg |-> i], LAMBDA p : Usable(V, p))
Report(op, x, V, us, ws, D) ==
  LET ps == TLCEval(Degs(V)) IN
  TLCEval([op |-> op, x |-> x, U |-> V, mults |-> KMults(V), floor |-> Asked(V, us \o ws),
           degs |-> [i \in 1..Len(ps) |-> Degree(V, ps[i], us, ws)], even |-> IF D = 0 THEN <<>> ELSE Grid_(V, ps, D)])
\* queries: the values, values near and between them, and beyond both ends
Near1(V, st) == TLCEval([i \in 1..6 |-> LET x == RndSeq(V, st)  k == RndInt(1, 5, st) IN
   CASE k = 1 -> x [] k = 2 -> RSub(x, Eps) [] k = 3 -> RAdd(x, Eps) [] k = 4 -> RAdd(Last_(V), RI(RndInt(0, 2, st))) [] OTHER -> RSub(V[1], RQ(RndInt(0, 3, st), 2))])
Mid1(V, st) == TLCEval([i \in 1..4 |-> RLerp(V[1], Last_(V), RQ(RndInt(0, 32, st), 32))])
RECURSIVE Raise(_, _, _)
Raise(x, n, st) == IF n = 0 THEN <<>> ELSE <<x>> \o Raise(RAdd(x, IF RndInt(1, 3, st) = 1 THEN Zero ELSE RQ(RndInt(1, 8, st), 4)), n - 1, st)
RndKnots(st) ==
  LET n == RndInt(2, MaxLen, st)  x == RQ(RndInt(-12, 4, st), 4) IN
  IF RndInt(1, 2, st) = 1 THEN TLCEval(Raise(x, n, st))
  ELSE LET p == RndInt(1, MaxDeg, st)  m == TLCEval(Raise(x, RndInt(2, 5, st), st)) IN Rep(m[1], p) \o m \o Rep(Last_(m), p)

KInit == U = <<>> /\ hist = <<>> /\ phase = "new"
Step(op, x, V, us, ws, D) == U' = V /\ hist' = Append(hist, Report(op, x, V, us, ws, D)) /\ phase' = "run"
KNew == phase = "new" /\ \E V \in {RndKnots(phase)} : \E us \in {Near1(V, phase)}, ws \in {Mid1(V, phase)}, D \in {RndOf({1, 2, 4, 8}, phase)} : Step("new", Zero, V, us, ws, D)
KUni == phase = "new" /\ \E n \in {RndInt(2, 5, phase)}, p \in {RndInt(1, MaxDeg, phase)} : \E V \in {KUniform(n, p)} :
          \E us \in {Near1(V, phase)}, ws \in {Mid1(V, phase)} : Step("uniform", <<n, p>>, V, us, ws, 4)
KStep == phase = "run" /\ Len(hist) <= MaxSteps /\ \E k \in {RndInt(1, 6, hist)}, us \in {Near1(U, hist)}, ws \in {Mid1(U, hist)} :
           \E V \in {CASE k = 5 -> KInvert(U) [] k = 6 -> U [] OTHER -> KAdd(U, us[1])} :
             Step(CASE k = 5 -> "invert" [] k = 6 -> "cast" [] OTHER -> "add", us[1], V, us, ws, 0)
KEmit == phase = "run" /\ Len(hist) = MaxSteps + 1 /\ PrintT(ToJson([m |-> "knots", steps |-> hist])) /\ phase' = "done" /\ UNCHANGED <<U, hist>>
KNext == KNew \/ KUni \/ KStep \/ KEmit

SortInv == U # <<>> => Sorted(U)
CountInv == U # <<>> => Total([i \in 1..Len(KMults(U)) |-> RI(KMults(U)[i].m)])[1] = Len(U)
BackInv == U # <<>> => \A i \in 1..Len(U) : Eq(KInvert(KInvert(U))[i], U[i])
BasisInv == (hist # <<>>) => LET h == hist[Len(hist)] IN \A d \in 1..Len(h.degs) : \A b \in 1..Len(h.degs[d].basis) :
              LET x == h.degs[d].basis[b] IN RowsOk(U, h.degs[d].p, x.u, x.k + 1, 2)
SpanInv == (hist # <<>>) => LET h == hist[Len(hist)] IN \A d \in 1..Len(h.degs) : \A b \in 1..Len(h.degs[d].at) :
              LET x == h.degs[d].at[b]  k == x.k + 1 IN
              Lt(U[k], U[k + 1]) /\ Le(U[k], x.v) /\ Le(x.v, U[k + 1]) /\ k > h.degs[d].p /\ k <= Len(U) - h.degs[d].p - 1
=============================================================================

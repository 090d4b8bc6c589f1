------------------------------ MODULE Nearest ------------------------------
(***************************************************************************)
(* Nearest points of surfaces.  Over a net of exact surface points every     *)
(* result has to be at least as near as the nearest of the net; on round     *)
(* surfaces (sphere, cylinder, torus) and parallelograms the exact distance  *)
(* is known.                                                                 *)
(***************************************************************************)
EXTENDS Surface, Dirs
Gap2(a, b) == LET d == VSub(a, b) IN VDot(d, d)
RECURSIVE FineR(_, _, _)
FineR(B, k, i) == IF i >= Len(B) THEN <<B[Len(B)]>>
                  ELSE [j \in 1..k |-> RLerp(B[i], B[i + 1], RQ(j - 1, k))] \o FineR(B, k, i + 1)
Net(s, k) ==
  LET A == FineR(Breaks(AsU(s)), k, 1)  B == FineR(Breaks(AsU(Swap(s))), k, 1)  n == Len(B)
      row == TLCEval([i \in 1..Len(A) |-> RowCurve(s, HEval(AsU(s), A[i]))])
  IN  TLCEval([m \in 1..(Len(A) * n) |-> Point(row[((m - 1) \div n) + 1], B[((m - 1) % n) + 1])])
RECURSIVE Least(_, _, _)
Least(net, x, i) == IF i = Len(net) THEN Gap2(x, net[i])
                    ELSE LET r == Least(net, x, i + 1)  g == Gap2(x, net[i]) IN IF Lt(g, r) THEN g ELSE r
Cross_(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Clip(t, lo, hi) == IF Lt(t, lo) THEN lo ELSE IF Lt(hi, t) THEN hi ELSE t
Abs_(t) == IF Lt(t, Zero) THEN RNeg(t) ELSE t

(* the distance from o + t*d to the sphere of radius r about o, |d| = 1 *)
SphereGap(r, t) == Abs_(RSub(Abs_(t), r))
(* axis direction a, radial direction e (both unit, orthogonal), height h and *)
(* distance s from the axis; the lateral cylinder of radius r over 0..l        *)
TubeGap2(r, l, h, s) == LET a == RSub(h, Clip(h, Zero, l))  b == RSub(s, r) IN RAdd(RMul(a, a), RMul(b, b))
(* torus of radii R and r: the point at distance s from the centre circle,     *)
(* on the circle's side of the axis                                            *)
TorusGap(r, s) == Abs_(RSub(s, r))
=============================================================================

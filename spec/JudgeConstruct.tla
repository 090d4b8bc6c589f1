--------------------------- MODULE JudgeConstruct ---------------------------
EXTENDS Construct, Judge
SweptRows(r) ==
  IF Len(r.rows) # Len(r.frames) THEN "sections"
  ELSE IF \E k \in 1..Len(r.rows) : \E j \in 1..Len(r.s.g) : ~NearV(r.rows[k][j], Place(r.frames[k], r.s.g[j][2])) THEN "misses the profile in one of the rail's frames"
  ELSE "ok"
MadeVerdict(r) ==
  CASE r.s.kind = "revolve" -> Revolved(r.s, [i \in 1..Len(r.s.g) |-> r.s.g[i][2]], r.rows)
    [] r.s.kind = "sphere" -> Sphere(r.s, r.rows)
    [] r.s.kind = "frames" -> Frames(r.s.R, r.frames)
    [] r.s.kind = "sweep" -> LET v == Frames(r.s.R, r.frames) IN IF v # "ok" THEN v ELSE SweptRows(r)
=============================================================================

----------------------------- MODULE JudgeConic -----------------------------
EXTENDS Conic, Judge
ConicVerdict(r) ==
  IF r.s.kind = "refused" THEN IF r.refused THEN "ok" ELSE "an empty interval was accepted"
  ELSE IF r.refused THEN "refused: " \o r.why
  ELSE IF \E i \in 1..Len(r.w) : ~Lt(Zero, r.w[i]) THEN "a weight is not positive"
  ELSE IF r.closed # r.s.full THEN "closedness"
  ELSE Sweep(r.s, r.pts)
=============================================================================

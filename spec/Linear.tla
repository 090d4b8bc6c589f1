------------------------------ MODULE Linear ------------------------------
(* Exact solution of square linear systems: rows of A, right-hand sides B    *)
(* (a sequence of vectors, one per row).  Gauss-Jordan elimination.          *)
EXTENDS Rat
LOCAL NZ(x) == RCmp(x, RI(0)) # 0
RECURSIVE Elim(_, _)
(* M: rows [A|B]; k: next column; <<>> if singular *)
Elim(M, k) ==
  LET n == Len(M) IN
  IF k > n THEN M
  ELSE LET c == {i \in k..n : NZ(M[i][k])} IN
       IF c = {} THEN <<>>
       ELSE LET i == CHOOSE x \in c : TRUE
                piv == VScale(M[i], RDiv(RI(1), M[i][k]))
                sw == [M EXCEPT ![i] = M[k], ![k] = piv]
            IN  Elim([r \in 1..n |-> IF r = k THEN piv
                                     ELSE IF ~NZ(sw[r][k]) THEN sw[r]
                                     ELSE VSub(sw[r], VScale(piv, sw[r][k]))], k + 1)
(* the solution (a sequence of vectors), or <<>> *)
Solve(A, Bs) ==
  LET n == Len(A)
      R == Elim([i \in 1..n |-> A[i] \o Bs[i]], 1)
  IN  IF R = <<>> THEN <<>> ELSE [i \in 1..n |-> SubSeq(R[i], n + 1, Len(R[i]))]
=============================================================================

------------------------------- MODULE Rnd -------------------------------
(* Random choices for simulation.  The argument st is any state-dependent   *)
(* value: it keeps TLC from caching the choice as a constant.               *)
EXTENDS Integers, Sequences, TLC
RndInt(lo, hi, st) == IF st = st THEN RandomElement(lo..hi) ELSE lo
RndOf(S, st) == IF st = st THEN RandomElement(S) ELSE RandomElement(S)
RndSeq(s, st) == s[RndInt(1, Len(s), st)]
=============================================================================

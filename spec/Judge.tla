------------------------------- MODULE Judge -------------------------------
(* Steps through the records written by the real code and prints those the  *)
(* specification does not accept.  Verdict(r) is "ok" or a reason; a record  *)
(* is rejected without stopping, so that every rejection is reported.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Verdict(_)
VARIABLE judged
T == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
JInit == judged = 0
JNext == \/ /\ judged < Len(T) /\ judged' = judged + 1
            /\ \E v \in {Verdict(T[judged + 1])} : (v = "ok" \/ PrintT(ToJson([bad |-> judged + 1, why |-> v]))) = TRUE
         \/ judged = Len(T) /\ PrintT(ToJson([done |-> Len(T)])) /\ judged' = judged + 1
=============================================================================

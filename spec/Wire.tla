-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* Reading serialised objects.  A message is a list of fields, each with a   *)
(* value: "good" (the object's own), "null", "bad" (a value of another type) *)
(* or "part" (an object of the right kind with a field of its own missing).  *)
(* The reader consumes it field by field; faults are what the writer of the  *)
(* message adds to or leaves out of a complete message in some order.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxFaults
VARIABLES kind, msg, got, live, faults, phase
wvars == <<kind, msg, got, live, faults, phase>>

Fields(k) == CASE k = "curve"    -> {"control_points", "degree", "knots"}
               [] k = "surface"  -> {"control_points", "u_degree", "v_degree", "u_knots", "v_knots"}
               [] k = "compound" -> {"spans"}
               [] k = "region"   -> {"exterior", "interiors"}
               [] k = "trimmed"  -> {"surface", "exterior", "interiors"}
Optional(k) == IF k = "trimmed" THEN {"exterior"} ELSE {}
Objects(k) == Fields(k) \cap {"spans", "surface", "exterior", "interiors"}
Lenient(k) == k = "region"              \* skips fields it does not know
Values(k, f) == {"good", "bad", "null"} \cup (IF f \in Objects(k) THEN {"part"} ELSE {})
Takes(k, f, v) == v = "good" \/ (v = "null" /\ f \in Optional(k))

(* the reader *)
Read(k, g, f, v) ==
  IF f \notin Fields(k) THEN [live |-> Lenient(k), got |-> g]
  ELSE IF g[f] # "absent" \/ ~Takes(k, f, v) THEN [live |-> FALSE, got |-> g]
  ELSE [live |-> TRUE, got |-> [g EXCEPT ![f] = v]]
Complete(k, g) == \A f \in Fields(k) \ Optional(k) : g[f] # "absent"

(* what a message means, whatever its order *)
Count(m, f) == Cardinality({i \in 1..Len(m) : m[i].f = f})
Means(k, m) ==
  /\ \A f \in Fields(k) : Count(m, f) = 1 \/ (f \in Optional(k) /\ Count(m, f) = 0)
  /\ \A i \in 1..Len(m) : IF m[i].f \in Fields(k) THEN Takes(k, m[i].f, m[i].v) ELSE Lenient(k)

WInit == /\ kind \in Kinds /\ msg = <<>> /\ live = TRUE /\ faults = 0 /\ phase = "write"
         /\ got = [f \in Fields(kind) |-> "absent"]
Written == {msg[i].f : i \in 1..Len(msg)}
Put(f, v, n) ==
  /\ faults + n <= MaxFaults /\ faults' = faults + n
  /\ msg' = Append(msg, [f |-> f, v |-> v])
  /\ LET r == IF live THEN Read(kind, got, f, v) ELSE [live |-> FALSE, got |-> got] IN live' = r.live /\ got' = r.got
  /\ UNCHANGED <<kind, phase>>
Next_ == phase = "write" /\ \E f \in Fields(kind) \ Written : \E v \in Values(kind, f) : Put(f, v, IF v = "good" THEN 0 ELSE 1)
Again == phase = "write" /\ \E f \in Written \cap Fields(kind) : \E v \in Values(kind, f) : Put(f, v, 1)
Alien == phase = "write" /\ \E v \in {"good", "bad"} : Put("weight", v, 1)
End   == /\ phase = "write" /\ faults + Cardinality(Fields(kind) \ Written) <= MaxFaults
         /\ phase' = "end" /\ UNCHANGED <<kind, msg, got, live, faults>>
WNext == Next_ \/ Again \/ Alien \/ End

Verdict == live /\ Complete(kind, got)
OrderInv == phase = "end" => (Verdict <=> Means(kind, msg))
FaultInv == (phase = "end" /\ faults = 0 /\ Len(msg) = Cardinality(Fields(kind))) => Verdict
KeepInv == \A f \in Fields(kind) : (got[f] # "absent") => \E i \in 1..Len(msg) : msg[i].f = f /\ msg[i].v = got[f]
Emit == phase = "end" => PrintT(ToJson([m |-> "wire", kind |-> kind, msg |-> msg, ok |-> Verdict, got |-> got]))
=============================================================================

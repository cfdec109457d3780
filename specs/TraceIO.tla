------------------------------ MODULE TraceIO ------------------------------
(* Recorded executions (one JSON object per line) and verdict output.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Accept(t) == PrintT("V " \o ToJson([t |-> t, v |-> "ACCEPT"]))
Reject(t, clause, expected) ==
  PrintT("V " \o ToJson([t |-> t, v |-> "REJECT", c |-> clause, e |-> expected]))
RejectAt(t, l, clause, expected) ==
  PrintT("V " \o ToJson([t |-> t, v |-> "REJECT", l |-> l, c |-> clause, e |-> expected]))
Case(rec) == PrintT("CASE " \o ToJson(rec))
=============================================================================

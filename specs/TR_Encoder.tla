----------------------------- MODULE TR_Encoder -----------------------------
EXTENDS Encoder, TraceIO
VARIABLES t, c, on
vars == <<envars, t, c, on>>
R == Trace[t]
Obs == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ EnInit
(* calls: "encode" text -> entries; "matrix" text -> ones per row; "decode" entries -> text *)
Clause ==
  IF Obs.op = "decode"
  THEN IF DecodeFails(Obs.entries) THEN IF Obs.exc = "ValueError" THEN "" ELSE "an index out of range was accepted"
       ELSE IF Obs.exc # "" THEN "decoding raised" ELSE IF Obs.text = Decode(Obs.entries) THEN "" ELSE "decoded text"
  ELSE IF Obs.exc # "" THEN "the call raised"
  ELSE IF Obs.op = "encode"
  THEN IF Obs.entries # entries THEN "entries" ELSE IF Obs.text # decoded THEN "round trip" ELSE ""
  ELSE IF /\ Len(Obs.entries) = Len(entries) /\ (Obs.width = Dim)
          /\ \A i \in 1..Len(entries) : SeqRange(Obs.entries[i]) = SeqRange(entries[i])
       THEN "" ELSE "matrix"
Expected == IF Obs.op = "decode" THEN IF DecodeFails(Obs.entries) THEN "ValueError" ELSE ToString(Decode(Obs.entries))
            ELSE ToString(<<entries, decoded>>)
Verdict == IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, Expected) /\ c' = 1000000
More == c <= Len(R.calls)
Next ==
  \/ More /\ ~on /\ Obs.op # "decode" /\ EncodeCall(Obs.text0) /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ on /\ EnStep /\ UNCHANGED <<t, c, on>>
  \/ on /\ stage = "done" /\ stage' = "idle" /\ on' = FALSE /\ UNCHANGED <<rest, entries, left, decoded, t>> /\ Verdict
  \/ More /\ ~on /\ Obs.op = "decode" /\ UNCHANGED <<envars, t, on>> /\ Verdict
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<envars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

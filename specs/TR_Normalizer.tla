--------------------------- MODULE TR_Normalizer ---------------------------
EXTENDS Normalizer, TraceIO
VARIABLES t, c, on
vars == <<nmvars, t, c, on>>
R == Trace[t]
Obs == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ txt = <<>> /\ todo = <<>> /\ wordy = {}
Clause == IF Obs.exc # "" THEN "the call raised" ELSE IF Obs.out = txt THEN "" ELSE "result"
Next ==
  \/ c <= Len(R.calls) /\ ~on /\ Call(Obs.fn, Obs.o, SeqRange(R.word), Obs.text) /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ on /\ DoPass /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ Finished /\ on' = FALSE /\ UNCHANGED <<nmvars, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, txt) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<nmvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

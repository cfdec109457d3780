---------------------------- MODULE TR_RegexTok ----------------------------
EXTENDS RegexTok, TraceIO
VARIABLES t, c, on
vars == <<rtvars, t, c, on>>
R == Trace[t]
Obs == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ queue = <<>> /\ pieces = <<>> /\ stage = 1 /\ out = <<>>
Clause ==
  IF Obs.exc # "" THEN "the call raised or did not return"
  ELSE IF Obs.form = "full" THEN IF Obs.full = out THEN "" ELSE "tokens per part"
  ELSE IF Obs.words = Concat(out) THEN "" ELSE "tokens"
Next ==
  \/ c <= Len(R.calls) /\ ~on /\ Call(Obs.text) /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ on /\ (Take \/ ApplyClass \/ Finish) /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ Finished /\ on' = FALSE /\ UNCHANGED <<rtvars, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, out) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<rtvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

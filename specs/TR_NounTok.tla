----------------------------- MODULE TR_NounTok -----------------------------
EXTENDS NounTok, TraceIO
VARIABLES t, c, on
vars == <<nvars, t, c, on>>
R == Trace[t]
Obs == R.calls[c]
Init == /\ t \in 1..Len(Trace) /\ c = 0 /\ on = FALSE /\ kind = "" /\ dict = <<>> /\ compose = FALSE
        /\ queue = <<>> /\ cur = <<>> /\ pos = -1 /\ found = <<>> /\ out = <<>>
Clause ==
  IF Obs.exc # "" THEN "the call raised or did not return"
  ELSE IF Obs.form = "full" THEN IF Obs.full = out THEN "" ELSE "nouns per eojeol"
  ELSE IF Obs.words = Words THEN "" ELSE "nouns"
Next ==
  \/ c = 0 /\ c' = 1 /\ kind' = R.kind /\ dict' = MkDict(R.dict) /\ UNCHANGED <<compose, queue, cur, pos, found, out, t, on>>
  \/ c \in 1..Len(R.calls) /\ ~on /\ Call(Obs.text, Obs.compose) /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ on /\ Work /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ Finished /\ on' = FALSE /\ UNCHANGED <<nvars, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, out) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<nvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

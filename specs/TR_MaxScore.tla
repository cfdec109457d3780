---------------------------- MODULE TR_MaxScore ----------------------------
(* Recorded calls of MaxScoreTokenizer objects, explained by MaxScore's      *)
(* actions: each call runs the specification to its end, where the recorded  *)
(* result must be the specification's.                                       *)
EXTENDS MaxScore, TraceIO
VARIABLES t, c, on
vars == <<msvars, t, c, on>>
R == Trace[t]
Init == /\ t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE
        /\ dict = <<>> /\ maxlen = 0 /\ ds = 0 /\ queue = <<>> /\ cur = <<>>
        /\ pool = {} /\ picks = <<>> /\ phase = "new" /\ out = <<>>
New == /\ phase = "new" /\ phase' = "idle"
       /\ dict' = MkDict(R.dict) /\ maxlen' = R.maxlen /\ ds' = R.ds
       /\ UNCHANGED <<queue, cur, pool, picks, out, t, c, on>>
Begin == /\ ~on /\ phase = "idle" /\ c <= Len(R.calls)
         /\ Call(R.calls[c].text) /\ on' = TRUE /\ UNCHANGED <<t, c>>
Run == on /\ Work /\ UNCHANGED <<t, c, on>>
Words == Concat([i \in 1..Len(out) |-> [j \in 1..Len(out[i]) |-> out[i][j][1]]])
Observed == R.calls[c]
Return ==
  /\ on /\ Finished /\ on' = FALSE /\ UNCHANGED <<msvars, t>>
  /\ LET clause == IF Observed.exc # "" THEN "the call raised or did not return"
                   ELSE IF Observed.form = "flat"
                        THEN IF Observed.words = Words THEN "" ELSE "flat tokens"
                        ELSE IF Observed.toks = out THEN ""
                             ELSE IF [i \in 1..Len(Observed.toks) |-> Surface(Observed.toks[i])]
                                     # [i \in 1..Len(out) |-> Surface(out[i])]
                                  THEN "tokens do not spell the eojeols" ELSE "tokens"
     IN IF clause = "" THEN c' = c + 1
        ELSE /\ RejectAt(t, c, clause, IF Observed.form = "flat" THEN Words ELSE out)
             /\ c' = Len(R.calls) + 2
Done == /\ ~on /\ phase = "idle" /\ c = Len(R.calls) + 1
        /\ Accept(t) /\ phase' = "end"
        /\ UNCHANGED <<dict, maxlen, ds, queue, cur, pool, picks, out, t, c, on>>
Next == New \/ Begin \/ Run \/ Return \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================

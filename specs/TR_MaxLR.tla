------------------------------ MODULE TR_MaxLR ------------------------------
EXTENDS MaxLR, TraceIO
VARIABLES t, c, on
vars == <<mvars, t, c, on>>
R == Trace[t]
Obs == R.calls[c]
Init == /\ t \in 1..Len(Trace) /\ c = 0 /\ on = FALSE /\ par = <<>> /\ queue = <<>> /\ cur = <<>>
        /\ cand = <<>> /\ kept = {} /\ picks = {} /\ phase = "idle" /\ out = <<>>
(* a dictionary that is given goes over one that is built from the L-R graph *)
Over(d, b) == LET x == MkDict(d) y == MkDict(b) IN [w \in DOMAIN x \cup DOMAIN y |-> IF w \in DOMAIN x THEN x[w] ELSE y[w]]
Load == LET pl == MkDict(R.pl) pr == MkDict(R.pr)
        IN par' = [dl |-> WithPrefs(Over(R.dl, R.bl), pl), dr |-> WithPrefs(Over(R.dr, R.br), pr), pl |-> pl, pr |-> pr,
                   diff |-> R.diff, ratio |-> R.ratio, ensl |-> R.ensl, ensd |-> R.ensd]
Clause ==
  IF Obs.exc # "" THEN "the call raised or did not return"
  ELSE IF Obs.form = "detail" THEN IF Obs.detail = out THEN "" ELSE "entries"
  ELSE IF Obs.form = "flat"
       THEN IF Obs.words = Concat([i \in 1..Len(out) |-> Tagged(out[i])]) THEN "" ELSE "words"
  ELSE IF Obs.full = [i \in 1..Len(out) |-> Tagged(out[i])] THEN "" ELSE "words per eojeol"
Next ==
  \/ c = 0 /\ c' = 1 /\ Load /\ UNCHANGED <<queue, cur, cand, kept, picks, phase, out, t, on>>
  \/ c \in 1..Len(R.calls) /\ ~on /\ Call(Obs.text) /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ on /\ Work /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ Finished /\ on' = FALSE /\ UNCHANGED <<mvars, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, out) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<mvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

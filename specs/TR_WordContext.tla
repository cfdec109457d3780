--------------------------- MODULE TR_WordContext ---------------------------
EXTENDS WordContext, TraceIO
VARIABLES t, c, on
vars == <<wcvars, t, c, on>>
R == Trace[t]
E == R.calls[c]
Tokens(x) == IF E.tok = "chars" THEN LET s == NonWhite(x) IN [i \in 1..Len(s) |-> <<s[i]>>] ELSE SplitWhite(x)
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ WcInit
Got == {<<E.vocab[x[1] + 1], E.vocab[x[2] + 1], x[3]>> : x \in SeqRange(E.cells)}
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE IF ~Admissible(E.vocab, sents, mintf) THEN "vocabulary"
  ELSE IF E.shape # <<Len(E.vocab), Len(E.vocab)>> THEN "shape"
  ELSE IF Len(E.cells) # Cardinality(SeqRange(E.cells)) \/ Got # {<<k[1], k[2], cells[k]>> : k \in DOMAIN cells} THEN "matrix"
  ELSE ""
Next ==
  \/ /\ c <= Len(R.calls) /\ ~on /\ on' = TRUE /\ UNCHANGED <<t, c>>
     /\ Begin([i \in 1..Len(E.texts) |-> Tokens(E.texts[i])], E.win, E.mintf, E.dyn)
  \/ on /\ WcStep /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ phase = "done" /\ on' = FALSE /\ phase' = "idle"
     /\ UNCHANGED <<sents, win, mintf, dyn, at, freq, cells, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, Clause, {<<k[1], k[2], cells[k]>> : k \in DOMAIN cells}) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<wcvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE TR_Bigram ------------------------------
(* Histories of one Bigram object: training (again), then extracting with    *)
(* any mode, number and threshold.                                           *)
EXTENDS Bigram, TraceIO
VARIABLES t, c, busy
vars == <<bgvars, t, c, busy>>
R == Trace[t]
E == R.events[c]
Tokens(x, chars) == IF chars THEN LET s == NonWhite(x) IN [i \in 1..Len(s) |-> <<s[i]>>] ELSE SplitWhite(x)
Init == t \in 1..Len(Trace) /\ c = 1 /\ busy = FALSE /\ BgInit
Got == {<<x[1], x[2]>> : x \in SeqRange(E.got)}
ClauseExtract ==
  IF E.exc # "" THEN "the call raised"
  ELSE IF Cardinality(Got) # Len(E.got) THEN "a pair twice"
  ELSE IF ~(Got \subseteq DOMAIN pairs) THEN "not a kept pair"
  ELSE IF \E x \in SeqRange(E.got) : x[3] # pairs[<<x[1], x[2]>>] THEN "count"
  ELSE IF \E x \in SeqRange(E.got) : ~Same(x[4], Score(<<x[1], x[2]>>, E.mode)) THEN "score"
  ELSE IF ~Legal(Got, E.mode, E.low, E.topk) THEN "which pairs"
  ELSE ""
Next ==
  \/ /\ c <= Len(R.events) /\ ~busy /\ E.op = "train" /\ busy' = TRUE /\ UNCHANGED <<t, c>>
     /\ StartTrain(E.opt, [i \in 1..Len(E.texts) |-> Tokens(E.texts[i], R.chars)])
  \/ busy /\ BgStep /\ UNCHANGED <<t, c, busy>>
  \/ /\ busy /\ phase = "done" /\ busy' = FALSE /\ UNCHANGED <<t, bgvars>>
     /\ IF E.exc = "" THEN c' = c + 1 ELSE RejectAt(t, c, "training raised", E.exc) /\ c' = 1000000
  \/ /\ c <= Len(R.events) /\ ~busy /\ E.op = "extract" /\ UNCHANGED <<t, busy, bgvars>>
     /\ IF ClauseExtract = "" THEN c' = c + 1
        ELSE RejectAt(t, c, ClauseExtract, {<<p, pairs[p], Score(p, E.mode)>> : p \in DOMAIN pairs}) /\ c' = 1000000
  \/ ~busy /\ c = Len(R.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<bgvars, t, busy>>
Spec == Init /\ [][Next]_vars
=============================================================================

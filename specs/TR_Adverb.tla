----------------------------- MODULE TR_Adverb -----------------------------
EXTENDS Adverb, TraceIO
VARIABLES t, c, on
vars == <<avvars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ AvInit
SetOf(x) == SeqRange(x)
Step ==
  CASE E.op = "load" -> Load(E.text)
    [] E.op = "derive" -> DeriveAll(SetOf(E.stems), SetOf(E.sufs))
    [] OTHER -> UNCHANGED avvars
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "load" -> IF SetOf(E.words) = FirstWords(E.text) /\ Len(E.words) = Cardinality(FirstWords(E.text)) THEN "" ELSE "the words of the dictionary"
    [] E.op = "derive" -> IF SetOf(E.got) # adverbs \/ Len(E.got) # Cardinality(adverbs) THEN "the adverbs"
                          ELSE IF SetOf(E.after) # stems THEN "the stems given" ELSE ""
    [] OTHER -> ""
Expected == [adverbs |-> ListOf(adverbs)]
Next ==
  \/ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<avvars, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<avvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

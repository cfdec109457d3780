------------------------- MODULE TR_EojeolCounter -------------------------
(* Recorded histories of one EojeolCounter: after every call the whole table *)
(* and every derived number is compared.                                     *)
EXTENDS EojeolCounter, TraceIO
VARIABLES t, l
vars == <<ecvars, t, l>>
Ev == Trace[t].events[l]
Init == /\ t \in 1..Len(Trace) /\ l = 1
        /\ opt = [min |-> 1, max |-> 15, every |-> 0, map |-> <<>>] /\ todo = <<>> /\ seen = 0
        /\ cnt = <<>> /\ total = 0 /\ cov = <<0, 1>> /\ phase = "ready" /\ files = <<>>
Mills == 1000000
Expected ==
  CASE Ev.op = "refused" -> ""     \* an empty or unsized corpus is refused
    [] OTHER ->
  IF Ev.exc # "" THEN "the call raised or did not return"
  ELSE IF SeqRange(Ev.items) # {<<w, cnt'[w]>> : w \in DOMAIN cnt'} \/ Len(Ev.items) # Cardinality(DOMAIN cnt')
  THEN "items"
  ELSE IF Ev.len # Cardinality(DOMAIN cnt') \/ Ev.unique # Ev.len THEN "number of eojeols"
  ELSE IF Ev.sum # SumOf(cnt') THEN "total count"
  ELSE IF \E i \in 1..Len(Ev.lookups) : Ev.lookups[i][2] # Get(cnt', Ev.lookups[i][1], 0) THEN "lookup"
  ELSE IF SeqRange(Ev.uncovered) # {<<w, cnt'[w]>> : w \in DOMAIN AtLeast(cnt', Ev.mc)} THEN "get_uncovered_eojeols"
  ELSE IF Abs(Ev.cov * cov'[2] - cov'[1] * Mills) > cov'[2] THEN "coverage"
  ELSE IF Ev.op = "set" /\ Ev.refused # (Ev.q[1] < 0 \/ Ev.q[1] > Ev.q[2]) THEN "coverage limits"
  ELSE ""
Judge == IF Expected = "" THEN l' = l + 1
         ELSE RejectAt(t, l, Ev.op \o ": " \o Expected, ListOf({<<w, cnt'[w]>> : w \in DOMAIN cnt'})) /\ l' = 1000000
Next ==
  \/ /\ phase = "ready" /\ l <= Len(Trace[t].events) /\ Ev.op = "new"
     /\ StartCount(Ev.opt, Ev.sents) /\ UNCHANGED <<t, l>>
  \/ CountSentence /\ UNCHANGED <<t, l>>
  \/ FinishCount /\ Judge /\ UNCHANGED t
  \/ /\ phase = "ready" /\ l <= Len(Trace[t].events) /\ Ev.op # "new"
     /\ CASE Ev.op = "remove" -> RemoveCovered(SeqRange(Ev.ws))
          [] Ev.op = "set" -> SetCoverage(Ev.q)
          [] Ev.op = "save" -> SaveTo(Ev.f)
          [] Ev.op = "load" -> LoadFrom(Ev.f)
          [] Ev.op = "refused" -> UNCHANGED ecvars
     /\ Judge /\ UNCHANGED t
  \/ /\ phase = "ready" /\ l = Len(Trace[t].events) + 1 /\ Accept(t) /\ l' = l + 1 /\ UNCHANGED <<ecvars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

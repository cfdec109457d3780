---------------------------- MODULE TR_EomiStem ----------------------------
EXTENDS EomiStem, TraceIO
VARIABLES t, c, on
vars == <<esvars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ EsInit
ArgsE == [what |-> "eomi", q |-> E.q, minf |-> E.minf, nmin |-> T.nmin, cond |-> E.cond]
ArgsS == [what |-> "stem", q |-> E.q, minf |-> E.minf, umin |-> T.umin, hmin |-> T.hmin, ignore |-> SeqRange(E.ignore)]
Step ==
  CASE E.op = "eomi" -> ExtractEomi(ArgsE)
    [] E.op = "stem" -> ExtractStem(ArgsS)
    [] OTHER -> UNCHANGED esvars
Near(micro, x) == Abs(micro * x.den - x.num * Million) <= x.den
NearMean(micro, m) == Abs(micro - MeanOf(m)) <= 3
Shown == {x[1] : x \in SeqRange(E.got)}
WantE == Kept(got, args.q, args.minf)
DoubtE == Doubt(got, args.q, args.minf)
JudgeNow == JudgeStem(rel, KL, KR, E.w, E.q, E.minf, T.umin, T.hmin)
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "eomi" ->
         IF Len(E.got) # Cardinality(Shown) THEN "an ending twice"
         ELSE IF Shown \ DoubtE # WantE \ DoubtE THEN "the endings"
         ELSE IF \E x \in SeqRange(E.got) : x[2] # got[x[1]].n THEN "a frequency"
         ELSE IF \E x \in SeqRange(E.got) : ~NearMean(x[3], got[x[1]]) THEN "a score"
         ELSE IF {<<x[1], x[2], x[3]>> : x \in SeqRange(E.left)} # {<<k[1], k[2], origin[k]>> : k \in DOMAIN origin} THEN "the graph"
         ELSE ""
    [] E.op = "stem" ->
         IF {x[1] : x \in SeqRange(E.surfaces)} # DOMAIN seen \/ Len(E.surfaces) # Cardinality(DOMAIN seen) THEN "the surfaces"
         ELSE IF \E x \in SeqRange(E.surfaces) : x[2] # seen[x[1]].freq \/ ~Near(x[3], seen[x[1]].score) THEN "the judgement of a surface"
         ELSE IF Shown # DOMAIN got \/ Len(E.got) # Cardinality(Shown) THEN "the stems"
         ELSE IF \E x \in SeqRange(E.got) : x[2] # got[x[1]].n THEN "a frequency"
         ELSE IF \E x \in SeqRange(E.got) : ~NearMean(x[3], got[x[1]]) THEN "a score"
         ELSE IF {<<x[1], x[2], x[3]>> : x \in SeqRange(E.left)} # {<<k[1], k[2], origin[k]>> : k \in DOMAIN origin} THEN "the graph"
         ELSE ""
    [] E.op = "predict" -> IF E.freq = JudgeNow.freq /\ Near(E.score, JudgeNow.score) THEN "" ELSE "the judgement"
    [] E.op = "parts" -> IF SeqRange(E.l) = KL /\ SeqRange(E.r) = KR THEN "" ELSE "the known parts"
    [] OTHER -> ""
Expected ==
  CASE E.op = "eomi" -> [got |-> ListOf({<<e, got[e]>> : e \in WantE})]
    [] E.op = "stem" -> [surfaces |-> ListOf({<<l, seen[l]>> : l \in DOMAIN seen}), got |-> ListOf({<<s, got[s]>> : s \in DOMAIN got})]
    [] E.op = "predict" -> [judge |-> JudgeNow]
    [] E.op = "parts" -> [l |-> ListOf(KL), r |-> ListOf(KR)]
    [] OTHER -> [op |-> E.op]
Begin == phase = "new" /\ Load(RelOfWords(T.words, T.lmax, T.rmax), SeqRange(T.stems), SeqRange(T.nouns), SeqRange(T.ends)) /\ UNCHANGED <<t, c, on>>
Next ==
  \/ Begin
  \/ phase # "new" /\ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<esvars, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<esvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

--------------------------- MODULE TR_WordExtract ---------------------------
EXTENDS WordExtract, TraceIO
VARIABLES t, c, busy
vars == <<wxvars, t, c, busy>>
R == Trace[t]
E == R.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ busy = FALSE /\ WxInit
Near(a, b) == Abs(a - b) <= EntropyError
(* a recorded cohesion fraction equals the one expected *)
SameFrac(p, q) == p[1] * q[2] = q[1] * p[2]
ClauseCounts ==
  IF Len(E.words) # Cardinality(SeqRange(E.words)) \/ SeqRange(E.words) # Words THEN "words"
  ELSE IF \E x \in SeqRange(E.freq) : <<x[2], x[3]>> # Frequency(x[1]) THEN "frequency"
  ELSE IF E.cf # cf THEN "settings" ELSE ""
(* table rows <<word, left, right>> *)
Rows(tab) == {x[1] : x \in SeqRange(tab)}
ClauseScores ==
  IF \E x \in SeqRange(E.single) : ~SameFrac(x[2], CohesionL(x[1])) THEN "left cohesion"
  ELSE IF \E x \in SeqRange(E.single) : ~SameFrac(x[3], CohesionR(x[1])) THEN "right cohesion"
  ELSE IF \E x \in SeqRange(E.single) : ~Near(x[4], Entropy(LeftNeighbours(x[1]))) THEN "left branching entropy"
  ELSE IF \E x \in SeqRange(E.single) : ~Near(x[5], Entropy(RightNeighbours(x[1]))) THEN "right branching entropy"
  ELSE IF \E x \in SeqRange(E.single) : x[6] # Variety(LeftNeighbours(x[1])) THEN "left accessor variety"
  ELSE IF \E x \in SeqRange(E.single) : x[7] # Variety(RightNeighbours(x[1])) THEN "right accessor variety"
  ELSE ""
ClauseTables ==
  IF \E x \in SeqRange(E.coh) : ~SameFrac(x[2], CohesionL(x[1])) \/ ~SameFrac(x[3], CohesionR(x[1])) THEN "table of cohesions"
  ELSE IF \E w \in Words \ Rows(E.coh) : CohesionL(w)[1] # 0 \/ CohesionR(w)[1] # 0 THEN "cohesion missing"
  ELSE IF \E x \in SeqRange(E.be) : ~Near(x[2], Entropy(AllLeft(x[1]))) \/ ~Near(x[3], Entropy(AllRight(x[1]))) THEN "table of entropies"
  ELSE IF \E x \in SeqRange(E.av) : x[2] # Variety(AllLeft(x[1])) \/ x[3] # Variety(AllRight(x[1])) THEN "table of varieties"
  ELSE IF \E x \in SeqRange(E.sums) : x[2] # SumOf(AllLeft(x[1])) \/ x[3] # SumOf(AllRight(x[1])) THEN "table of neighbour counts"
  ELSE IF \E tab \in {E.be, E.av, E.sums} : ~((LeftRoots \cup RightRoots) \subseteq Rows(tab)) THEN "word missing in a table"
  ELSE ""
ClauseWordScores ==
  IF Rows(E.scores) # Words \/ Len(E.scores) # Cardinality(Words) THEN "scored words"
  ELSE IF \E x \in SeqRange(E.scores) :
     \/ ~SameFrac(x[2], CohesionL(x[1])) \/ ~SameFrac(x[3], CohesionR(x[1]))
     \/ ~Near(x[4], Entropy(AllLeft(x[1]))) \/ ~Near(x[5], Entropy(AllRight(x[1])))
     \/ x[6] # Variety(AllLeft(x[1])) \/ x[7] # Variety(AllRight(x[1]))
     \/ <<x[8], x[9]>> # Frequency(x[1]) THEN "scores of a word"
  ELSE ""
ClauseExtract ==
  IF Len(E.got) # Cardinality(SeqRange(E.got)) \/ ~LegalExtraction(SeqRange(E.got)) THEN "extracted words" ELSE ""
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "counts" -> ClauseCounts
         [] E.op = "single" -> ClauseScores
         [] E.op = "tables" -> ClauseTables
         [] E.op = "scores" -> ClauseWordScores
         [] E.op = "extract" -> ClauseExtract
         [] OTHER -> ""
Looks == {"counts", "single", "tables", "scores", "extract"}
Judge == IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, ListOf(Words)) /\ c' = 1000000
Next ==
  \/ /\ c <= Len(R.events) /\ ~busy /\ E.op = "train" /\ busy' = TRUE /\ UNCHANGED <<t, c>>
     /\ StartTrain([i \in 1..Len(E.texts) |-> SplitWhite(E.texts[i])], E.every, E.again)
  \/ busy /\ WxStep /\ UNCHANGED <<t, c, busy>>
  \/ busy /\ phase = "ready" /\ busy' = FALSE /\ Judge /\ UNCHANGED <<t, wxvars>>
  \/ c <= Len(R.events) /\ ~busy /\ E.op \in Looks /\ Judge /\ UNCHANGED <<t, busy, wxvars>>
  \/ c <= Len(R.events) /\ ~busy /\ E.op = "refused" /\ Judge /\ UNCHANGED <<t, busy, wxvars>>
  \/ c <= Len(R.events) /\ ~busy /\ E.op = "new" /\ Create(E.cf) /\ Judge /\ UNCHANGED <<t, busy>>
  \/ c <= Len(R.events) /\ ~busy /\ E.op = "save" /\ SaveTo(E.f) /\ Judge /\ UNCHANGED <<t, busy>>
  \/ c <= Len(R.events) /\ ~busy /\ E.op = "load" /\ LoadFrom(E.f) /\ Judge /\ UNCHANGED <<t, busy>>
  \/ ~busy /\ c = Len(R.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<wxvars, t, busy>>
Spec == Init /\ [][Next]_vars
=============================================================================

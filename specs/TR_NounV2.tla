----------------------------- MODULE TR_NounV2 -----------------------------
EXTENDS NounV2, TraceIO
VARIABLES t, c, on
vars == <<nvvars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ NvInit
Set(s) == SeqRange(s)
FeaturesOf(p, n) == [pos |-> Set(p) \ Set(n), neg |-> Set(n) \ Set(p), com |-> Set(p) \cap Set(n)]
RelOfTriples(ts) == [k \in {<<x[1], x[2]>> : x \in Set(ts)} |-> (CHOOSE x \in Set(ts) : x[1] = k[1] /\ x[2] = k[2])[3]]
Counted(ss, minc, maxlen) ==
  LET ws == Concat([i \in 1..Len(ss) |-> SplitWhite(ss[i])])
      f == [w \in {w \in Set(ws) : Len(w) <= maxlen} |-> Cardinality({i \in 1..Len(ws) : ws[i] = w})]
  IN ListOf({<<w, f[w]>> : w \in {w \in DOMAIN f : f[w] >= minc}})
Trained ==
  CASE E.from = "rel" -> RelOfTriples(E.rel)
    [] E.from = "words" -> RelOfWords(E.words, cf.lmax, cf.rmax)
    [] OTHER -> RelOfWords(Counted(E.sents, E.minc, cf.lmax + cf.rmax), cf.lmax, cf.rmax)
ArgsOf == [E.a EXCEPT !.ignore = Set(@)]
Given == IF E.given = <<>> THEN CandidatesIn2(ft, rel) ELSE Set(E.given)
DefaultLimits == [nscore |-> <<3, 10>>, nfreq |-> 100, pscore |-> <<3, 10>>, pfreq |-> 1000, nlast |-> 4, elast |-> 500000, enoun |-> 1500000, ignore |-> {}]
DoubtfulIn(F, P, R, a) ==
  LET near(x, y) == y > 0 /\ Abs(x - y) <= 2 * EntropyError
  IN \E r \in DomainCandidates(F, P, R, a) :
       near(Entropy(LastCount(R, r)), a.elast)
       \/ near(Entropy(NounSpread(R, r, {w \in DOMAIN P : Reaches(P[w], a.nscore) /\ P[w][1] >= a.nfreq})), a.enoun)
DoubtfulFor(given, a) == DoubtfulIn(ft, JudgeAll(ft, cf, rel, given, a.nscore, <<>>)[1], origin, a)
Doubtful == DoubtfulFor(Given, ArgsOf)
Known == [pos |-> Set(E.known)]
Scores == [w \in {x[1] : x \in Set(E.scores)} |-> LET x == CHOOSE x \in Set(E.scores) : x[1] = w IN <<x[2], x[3], x[4]>>]
Undecided == args' = [doubt |-> TRUE] /\ UNCHANGED <<cf, ft, rel, origin, pred, comp, nouns, todo, phase>>
Step ==
  CASE E.op = "train" -> Train(Trained)
    [] E.op = "extract" /\ E.domain ->
         IF DoubtfulFor(CandidatesIn2(ft, rel), DefaultLimits) THEN Undecided
         ELSE ExtractWithParticles([min |-> E.min, minf |-> E.minf, reset |-> E.reset], DefaultLimits)
    [] E.op = "extract" -> ExtractAll([min |-> E.min, minf |-> E.minf, reset |-> E.reset])
    [] E.op = "particles" -> IF Doubtful THEN Undecided
                             ELSE ExtractParticles(ArgsOf, Given, E.append)
    [] OTHER -> UNCHANGED nvvars
Near(x, micro) == Abs(micro * x[3] - x[2] * 1000000) <= x[3]
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "extract" ->
         IF {x[1] : x \in Set(E.nouns)} # DOMAIN nouns \/ Len(E.nouns) # Cardinality(DOMAIN nouns) THEN "the nouns"
         ELSE IF \E x \in Set(E.nouns) : x[2] # nouns[x[1]][1] THEN "a frequency"
         ELSE IF \E x \in Set(E.nouns) : ~Near(nouns[x[1]], x[3]) THEN "a score"
         ELSE IF RelOfTriples(E.left) # rel THEN "the eojeols left" ELSE ""
    [] E.op = "predict" ->
         LET p == Judge(ft, cf, rel, E.w, E.min) IN IF p[1] = E.support /\ Near(p, E.score) THEN "" ELSE "the judgement"
    [] E.op = "decompose" ->
         LET p == Decompose(ft, Parts(pred, args.min), E.w) IN IF E.parts = (IF p = <<>> THEN <<E.w>> ELSE p) THEN "" ELSE "the parts"
    [] E.op = "search" ->
         LET d == DomainParticles(Known, Scores, RelOfTriples(E.rel), ArgsOf)
         IN IF DoubtfulIn(Known, Scores, RelOfTriples(E.rel), ArgsOf) THEN ""
            ELSE IF {x[1] : x \in Set(E.found)} # DOMAIN d \/ Len(E.found) # Cardinality(DOMAIN d) THEN "the particles"
            ELSE IF \E x \in Set(E.found) : x[2] # d[x[1]][1] \/ ~Near(d[x[1]], x[3]) THEN "a frequency or score" ELSE ""
    [] E.op = "particles" -> IF RelOfTriples(E.left) # rel THEN "the eojeols left" ELSE ""
    [] OTHER -> ""
Expected ==
  CASE E.op = "extract" -> [nouns |-> ListOf({<<w, nouns[w]>> : w \in DOMAIN nouns})]
    [] E.op = "search" -> [found |-> DomainParticles(Known, Scores, RelOfTriples(E.rel), ArgsOf)]
    [] E.op = "predict" -> [judge |-> Judge(ft, cf, rel, E.w, E.min)]
    [] OTHER -> [op |-> E.op]
Begin == phase = "new" /\ Make([T.cf EXCEPT !.josa = Set(@), !.suffix = Set(@)], FeaturesOf(T.pos, T.neg)) /\ UNCHANGED <<t, c, on>>
Next ==
  \/ Begin
  \/ phase # "new" /\ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<nvvars, t>>
     /\ IF "doubt" \in DOMAIN args THEN Accept(t) /\ c' = 1000000
        ELSE IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<nvvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

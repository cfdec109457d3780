------------------------------ MODULE TR_NewsPos ------------------------------
EXTENDS NewsPos, TraceIO
VARIABLES t, c, on, unsure
vars == <<npvars, t, c, on, unsure>>
NV == INSTANCE NounV2 WITH cf <- <<>>, ft <- <<>>, rel <- NoRel, origin <- NoRel, pred <- <<>>, comp <- <<>>, nouns <- <<>>, args <- <<>>, todo <- {}, phase <- ""
PR == INSTANCE Predicator WITH cf <- <<>>, nouns <- {}, stems <- {}, ends <- {}, counts <- <<>>, args <- <<>>, todo <- {}, preds <- <<>>,
                               adjs <- <<>>, verbs <- <<>>, unsure <- FALSE, phase <- ""
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ unsure = FALSE /\ NpInit
SetOf(x) == SeqRange(x)
PairsOf(x) == [w \in {y[1] : y \in SeqRange(x)} |-> (CHOOSE y \in SeqRange(x) : y[1] = w)[2]]
LemmasIn(x) == LET f == PairsOf(x) IN [w \in DOMAIN f |-> SetOf(f[w])]
Told == [nouns |-> SetOf(E.nouns), advs |-> SetOf(E.advs), josas |-> SetOf(E.josas), ends |-> SetOf(E.ends), astems |-> SetOf(E.astems),
         vstems |-> SetOf(E.vstems), adjs |-> LemmasIn(E.adjs), verbs |-> LemmasIn(E.verbs), words |-> PairsOf(E.words)]

(* learning from sentences: nouns, then predicators among what is given by the dictionaries *)
CountUpTo(ss, minc, longest) ==
  LET ws == Concat([i \in 1..Len(ss) |-> SplitWhite(ss[i])]) IN PR!CountWords(ws, longest, minc)
FeaturesOf(p, n) == [pos |-> SetOf(p) \ SetOf(n), neg |-> SetOf(n) \ SetOf(p), com |-> SetOf(p) \cap SetOf(n)]
NounsFound(e, F, f) ==
  LET W == ListOf(DOMAIN f)
      O == RelOfWords([i \in 1..Len(W) |-> <<W[i], f[W[i]]>>], 10, 9)
      k == [lmax |-> 10, rmax |-> 9, minf |-> e.a.features, maxend |-> e.a.maxend, compound |-> FALSE,
            steps |-> <<"detaching_features", "ignore_features", "ignore_NJ">>, josa |-> SetOf(e.njosa), suffix |-> SetOf(e.nsuffix)]
      P == NV!JudgeAll(F, k, O, NV!CandidatesIn2(F, O), e.a.nscore, <<>>)[1]
  IN DOMAIN NV!Post(k, F, NV!Merged(P, <<>>, e.a.nscore, e.a.nfreq), O, k.steps)
AdverbsOf(e, stems) == SetOf(e.advs) \cup {SubSeq(s, 1, Len(s) - 1) \o <<55176>> : s \in {s \in stems : s # <<>> /\ C!Last(s) = 54616}}
Teach(e) ==       \* unsure: rounding decided
  \E F \in {FeaturesOf(e.pos, e.neg)} :
  \E words \in {CountUpTo(e.sents, e.a.minc, 19)} :
  \E ns \in {NounsFound(e, F, words)} :
  \E as \in {SetOf(e.astems)} : \E vs \in {SetOf(e.vstems)} : \E es \in {SetOf(e.ends)} :
  \E k \in {[nouns |-> PR!Trusted(ns, as \cup vs), josas |-> F.pos \cup F.com, stems |-> as \cup vs, adjs |-> as, verbs |-> vs]} :
  \E f \in {CountUpTo(e.sents, e.a.minc, 15)} :
  \E m \in {IF e.findends THEN PR!EndMeans(PR!Graph(f, k.nouns), k.stems, k.nouns, [q |-> e.a.escore, nmin |-> e.a.efeatures]) ELSE <<>>} :
  \E found \in {es \cup Kept(m, e.a.escore, e.a.efreq)} :
  \E all \in {PR!All(k, found, [w \in {w \in DOMAIN f : f[w] >= e.a.pfreq /\ PR!IsPlainText(w)} |-> f[w]])} :
  \E p \in {PR!Pruned(k, all)} :
    /\ Learn(T.kind, [nouns |-> ns, advs |-> AdverbsOf(e, as \cup vs), josas |-> F.pos \cup F.com, ends |-> found \ PR!Banned(k, all),
                      astems |-> as, vstems |-> vs, adjs |-> PR!AdjsOf(k, p), verbs |-> PR!VerbsOf(k, p), words |-> words])
    /\ unsure' = (Doubt(m, e.a.escore, e.a.efreq) \ es # {})
Step ==
  CASE E.op = "learn" -> Learn(T.kind, Told) /\ UNCHANGED unsure
    [] E.op = "train" -> Teach(E)
    [] E.op = "extract" -> ExtractAll(SetOf(T.chatjosas)) /\ UNCHANGED unsure
    [] OTHER -> UNCHANGED <<npvars, unsure>>
SameCount(x, f) == PairsOf(x) = f /\ Len(x) = Cardinality(DOMAIN f)
SameSet(x, S) == SetOf(x) = S /\ Len(x) = Cardinality(S)
SameLemmas(x, f) == {<<y[1], y[2], SeqRange(y[3])>> : y \in SeqRange(x)} = {<<w, f[w][1], f[w][2]>> : w \in DOMAIN f} /\ Len(x) = Cardinality(DOMAIN f)
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "train" ->
         IF ~SameSet(E.got.nouns, know.nouns) THEN "the nouns found"
         ELSE IF ~SameSet(E.got.adjs, DOMAIN know.adjs) THEN "the adjectives found"
         ELSE IF ~SameSet(E.got.verbs, DOMAIN know.verbs) THEN "the verbs found"
         ELSE IF ~SameSet(E.got.ends, know.ends) THEN "the endings found"
         ELSE IF ~SameCount(E.got.words, know.words) THEN "the eojeols" ELSE ""
    [] E.op = "extract" ->
         IF ~SameCount(E.noun, out.noun) THEN "the nouns"
         ELSE IF ~SameCount(E.confused, out.confused) THEN "the confused nouns"
         ELSE IF ~SameLemmas(E.adj, out.adj) THEN "the adjectives"
         ELSE IF ~SameLemmas(E.verb, out.verb) THEN "the verbs"
         ELSE IF ~SameCount(E.adv, out.adv) THEN "the adverbs"
         ELSE IF ~SameCount(E.rest, out.rest) THEN "what is not recognized"
         ELSE IF ~SameSet(E.ends, out.ends) THEN "the endings"
         ELSE IF ~SameSet(E.astems, out.astems) THEN "the adjective stems"
         ELSE IF ~SameSet(E.vstems, out.vstems) THEN "the verb stems"
         ELSE IF ~SameSet(E.josas, out.josas) THEN "the particles"
         ELSE ""
    [] OTHER -> ""
Shown(f) == ListOf({<<w, f[w]>> : w \in DOMAIN f})
Expected ==
  CASE E.op = "extract" -> [noun |-> Shown(out.noun), confused |-> Shown(out.confused), adv |-> Shown(out.adv), rest |-> Shown(out.rest),
                            adj |-> Shown(out.adj), verb |-> Shown(out.verb), ends |-> ListOf(out.ends)]
    [] E.op = "train" -> [nouns |-> ListOf(know.nouns), adjs |-> ListOf(DOMAIN know.adjs), verbs |-> ListOf(DOMAIN know.verbs)]
    [] OTHER -> [op |-> E.op]
Next ==
  \/ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<npvars, t, unsure>>
     /\ IF unsure THEN Accept(t) /\ c' = 1000000
        ELSE IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<npvars, t, on, unsure>>
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE Predicator -----------------------------
(* PredicatorExtractor: eojeols that are an adjective or verb stem with an   *)
(* ending, with new endings and stems found on the way.                      *)
EXTENDS PredParts
VARIABLES cf,        \* josas, adjs, verbs, findends, findstems, norm
          nouns, stems, ends,
          counts,    \* trained eojeol -> count
          args, todo,
          preds,     \* word -> lemmas
          adjs, verbs,   \* word -> lemmas
          unsure,    \* rounding decided which endings were found
          phase
prvars == <<cf, nouns, stems, ends, counts, args, todo, preds, adjs, verbs, unsure, phase>>
N == INSTANCE Normalizer WITH txt <- <<>>, todo <- <<>>, wordy <- {}

(* nouns that are a stem without its last syllable or two are not trusted *)
Trusted(ns, ss) ==
  LET part(s) == IF SubSeq(s, 1, Len(s) - 1) \in ns THEN SubSeq(s, 1, Len(s) - 1) ELSE SubSeq(s, 1, Len(s) - 2)
  IN ns \ {part(s) : s \in ss}
TokensOf(sents, norm) ==
  Concat([i \in 1..Len(sents) |->
            SplitWhite(IF norm THEN sents[i] ELSE N!Apply("normalize_sent_for_lrgraph", <<>>, {}, sents[i]))])
CountWords(ws, longest, m) ==
  LET W == {w \in SeqRange(ws) : Len(w) <= longest}
      f == [w \in W |-> Cardinality({i \in 1..Len(ws) : ws[i] = w})]
  IN [w \in {w \in W : f[w] >= m} |-> f[w]]
AtLeastCount(f, m) == [w \in {w \in DOMAIN f : f[w] >= m} |-> f[w]]
StartsWithNoun(ns, w) == \E e \in 2..Len(w) : SubSeq(w, 1, e) \in ns
GraphWords(f, ns) == {w \in DOMAIN f : Len(w) > 1 /\ ~StartsWithNoun(ns, w)}
Graph(f, ns) == LET W == ListOf(GraphWords(f, ns)) IN RelOfWords([i \in 1..Len(W) |-> <<W[i], f[W[i]]>>], 10, 9)
(* a: q, minf, nmin for endings; sq, sminf, umin, hmin for stems *)
EndMeans(R, ss, ns, a) == Endings(R, ss, JudgeEomis(R, Forms(ss), ns, EomiCandidates(R, Forms(ss), <<>>), a.q, a.nmin, <<>>), a.q)
NewStems(R, ss, es, a) ==
  LET cuts == KnownCuts(R, ss, es)
  IN DOMAIN Stems(R, es, ExtractStems(R, {p[1] : p \in cuts}, {p[2] : p \in cuts}, {}, a.sq, a.sminf, a.umin, a.hmin))

IsPlainText(w) == \A i \in 1..Len(w) : C!IsSyllable(w[i])
(* k: what is known, [nouns, josas, stems, adjs, verbs] *)
NounJosa(k, w) == \E i \in 1..(Len(w) - 1) : SubSeq(w, 1, i) \in k.nouns /\ SubSeq(w, i + 1, Len(w)) \in k.josas
LemmasOf(k, es, w) == IF NounJosa(k, w) THEN {} ELSE LET ok(p) == p[1] \in k.stems /\ p[2] \in es
  IN UNION {LemmasAmong(SubSeq(w, 1, i), SubSeq(w, i + 1, Len(w)), ok) : i \in 1..Len(w)}
WithLemmas(q) == CHOOSE z \in {TLCEval([w \in {w \in DOMAIN p : p[w] # {}} |-> p[w]]) : p \in {TLCEval(q)}} : TRUE

(* endings of one or two characters seen mostly in nouns of two syllables *)
Cases(p, e) == UNION {{<<w, c[1]>> : c \in {c \in p[w] : c[2] = e}} : w \in DOMAIN p}
Nouny(k, p, e) ==
  LET x == Cases(p, e)
      two == {y \in x : Len(y[1]) = 2}
  IN Len(e) < 3 /\ two # {} /\ 2 * Cardinality({y \in two : y[1] \in k.nouns}) >= Cardinality(two)
EndsIn(p) == {c[2] : c \in UNION {p[w] : w \in DOMAIN p}}
Banned(k, p) == {e \in EndsIn(p) : Nouny(k, p, e) /\ \A y \in Cases(p, e) : Len(y[1]) = 2}
Loses(k, p, e, w) ==
  /\ Nouny(k, p, e)
  /\ IF e \in Banned(k, p) THEN Len(w) = 2 ELSE (Len(w) = 2 /\ w \in k.nouns) \/ (Len(w) = 3 /\ Len(e) = 2)
Pruned(k, p) == LET bad == {e \in EndsIn(p) : Nouny(k, p, e)}
             IN WithLemmas([w \in DOMAIN p |-> {c \in p[w] : c[2] \notin bad \/ ~Loses(k, p, c[2], w)}])

AdjSuffixes == {<<44057>>, <<45813>>, <<47213>>, <<47564, 54616>>, <<49828, 47101>>, <<49884, 47101>>, <<51060>>, <<50500, 45768>>}
VerbSuffixes == {<<44144, 47532>>, <<45817, 54616>>, <<45817, 54728>>, <<49884, 53412>>}
EndsAs(s, S) == \E x \in S : EndsWith(s, x)
(* forms that only a verb has *)
Tests(s) ==
  LET l == C!Letters(C!Last(s))
      present == (IF l[3] = C!Blank THEN {<<12596, 45796>>, <<12596, 45796, 44256>>} ELSE {<<45716, 45796>>, <<45716, 45796, 44256>>})
                 \cup {<<44256, 51080, 45716>>}
      imperative == {IF l[2] \in {C!vEO, C!vYEO} THEN <<50612, 46972>> ELSE <<50500, 46972>>}
      pleasure == {<<51088>>, <<12601, 44620>>, <<12601, 44620, 48400>>, <<44620>>, <<44620, 48400>>, <<51012, 44620>>, <<51012, 44620, 48400>>}
  IN UNION {C!Conj(s, e, FALSE) : e \in present \cup imperative \cup pleasure}
IsVerb(k, p, s) ==
  IF s \in k.verbs THEN TRUE
  ELSE IF s \in k.adjs THEN FALSE
  ELSE IF EndsAs(s, AdjSuffixes) THEN FALSE
  ELSE IF EndsAs(s, VerbSuffixes) THEN TRUE
  ELSE Cardinality({x \in Tests(s) : x \in DOMAIN p}) > 1
VerbsOf(k, p) == LET vs == {s \in {c[1] : c \in UNION {p[w] : w \in DOMAIN p}} : IsVerb(k, p, s)}
              IN WithLemmas([w \in DOMAIN p |-> {c \in p[w] : c[1] \in vs}])
AdjsOf(k, p) == LET vs == {s \in {c[1] : c \in UNION {p[w] : w \in DOMAIN p}} : ~IsVerb(k, p, s)}
             IN WithLemmas([w \in DOMAIN p |-> {c \in p[w] : c[1] \in vs}])

-----------------------------------------------------------------------------
K == [nouns |-> nouns, josas |-> cf.josas, stems |-> stems, adjs |-> cf.adjs, verbs |-> cf.verbs]
PrInit == cf = <<>> /\ nouns = {} /\ stems = {} /\ ends = {} /\ counts = <<>> /\ args = <<>> /\ todo = {} /\ preds = <<>>
          /\ adjs = <<>> /\ verbs = <<>> /\ unsure = FALSE /\ phase = "new"
Make(c, ns, es) ==
  /\ phase = "new" /\ cf' = c /\ stems' = c.adjs \cup c.verbs /\ nouns' = Trusted(ns, c.adjs \cup c.verbs) /\ ends' = es
  /\ phase' = "idle" /\ UNCHANGED <<counts, args, todo, preds, adjs, verbs, unsure>>
Train(f, a) ==
  /\ phase = "idle" /\ counts' = f
  /\ \E R \in {IF cf.findends \/ cf.findstems THEN Graph(f, nouns) ELSE NoRel} :
     \E m \in {IF cf.findends THEN EndMeans(R, stems, nouns, a) ELSE <<>>} :
     \E es \in {ends \cup Kept(m, a.q, a.minf)} :
       /\ ends' = es
       /\ unsure' = (unsure \/ Doubt(m, a.q, a.minf) \ ends # {})
       /\ stems' = stems \cup IF cf.findstems THEN NewStems(R, stems, es, a) ELSE {}
  /\ UNCHANGED <<cf, nouns, args, todo, preds, adjs, verbs, phase>>
(* given: word -> count, or nothing for the trained eojeols *)
Offered(given, m) == IF given # <<>> THEN given ELSE [w \in {w \in DOMAIN counts : counts[w] >= m /\ IsPlainText(w)} |-> counts[w]]
Start(a) == phase = "idle" /\ args' = a /\ preds' = <<>> /\ todo' = DOMAIN a.from /\ phase' = "lemma"
            /\ UNCHANGED <<cf, nouns, stems, ends, counts, adjs, verbs, unsure>>
LemmaOne(w) ==
  /\ phase = "lemma" /\ w \in todo /\ todo' = todo \ {w}
  /\ LET c == LemmasOf(K, ends, w) IN preds' = IF c = {} THEN preds ELSE preds @@ (w :> c)
  /\ UNCHANGED <<cf, nouns, stems, ends, counts, args, adjs, verbs, unsure, phase>>
Prune == /\ phase = "lemma" /\ todo = {} /\ preds' = Pruned(K, preds) /\ ends' = ends \ Banned(K, preds) /\ phase' = "pruned"
         /\ UNCHANGED <<cf, nouns, stems, counts, args, todo, adjs, verbs, unsure>>
Separate == /\ phase = "pruned" /\ adjs' = AdjsOf(K, preds) /\ verbs' = VerbsOf(K, preds) /\ phase' = "idle"
            /\ UNCHANGED <<cf, nouns, stems, ends, counts, args, todo, preds, unsure>>
All(k, es, from) == WithLemmas([w \in DOMAIN from |-> LemmasOf(k, es, w)])
ExtractAll(a) ==
  \E all \in {All(K, ends, a.from)} : \E p \in {Pruned(K, all)} :
     /\ phase = "idle" /\ args' = a /\ preds' = p /\ ends' = ends \ Banned(K, all) /\ adjs' = AdjsOf(K, p) /\ verbs' = VerbsOf(K, p)
     /\ UNCHANGED <<cf, nouns, stems, counts, todo, unsure, phase>>

-----------------------------------------------------------------------------
Done == phase = "idle" /\ "from" \in DOMAIN args
Known == \A w \in DOMAIN preds : w \in DOMAIN args.from /\ preds[w] # {}
            /\ \A c \in preds[w] : c[1] \in stems /\ (phase = "lemma" \/ c[2] \in ends) /\ w \in C!Conj(c[1], c[2], FALSE)
NoNounJosa == \A w \in DOMAIN preds : ~NounJosa(K, w)
Parted == Done => /\ DOMAIN adjs \cup DOMAIN verbs = DOMAIN preds
                  /\ \A w \in DOMAIN preds : /\ Get(adjs, w, {}) \cup Get(verbs, w, {}) = preds[w]
                                             /\ Get(adjs, w, {}) \cap Get(verbs, w, {}) = {}
(* a word that loses no ending is found with every lemma it has *)
Complete == Done => \A w \in DOMAIN args.from : Len(w) > 3 => Get(preds, w, {}) = LemmasOf(K, ends, w)
Repeatable == Done => LET all == All(K, ends, args.from) IN Pruned(K, all) = preds /\ Banned(K, all) = {}
=============================================================================

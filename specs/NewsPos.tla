------------------------------- MODULE NewsPos -------------------------------
(* NewsPOSExtractor and ChatPOSExtractor: every counted eojeol goes through  *)
(* the stages below until one of them explains it.                           *)
EXTENDS PredParts, TLC
VARIABLES kind,      \* "news" or "chat"
          know,      \* [nouns, advs, josas, ends: sets; adjs, verbs: word -> lemmas; astems, vstems: sets; words: eojeol -> count]
          tally,     \* [noun, adj, verb, adv, josa: word -> count]
          left,      \* eojeols not explained yet -> count
          out,       \* the last answer
          stage
npvars == <<kind, know, tally, left, out, stage>>
G == INSTANCE GreedySeg

Only(f, S) == TLCEval([w \in DOMAIN f \cap S |-> f[w]])
But(f, S) == TLCEval([w \in DOMAIN f \ S |-> f[w]])
AddKeys(f, g) == TLCEval(Merge(f, g))                    \* counts add up
Over(f, g) == TLCEval([w \in DOMAIN f \cup DOMAIN g |-> IF w \in DOMAIN g THEN g[w] ELSE f[w]])   \* g replaces
(* the counts that the words of f give to of(w) *)
Give(f, W, of(_)) == FoldSet(LAMBDA w, g : LET k == of(w) IN IF k \in DOMAIN g THEN [g EXCEPT ![k] = @ + f[w]] ELSE g @@ (k :> f[w]), <<>>, W)
(* the first place from two characters on where a word falls into parts of L and R; 0 if none *)
CutAt(w, L, R) ==
  LET is == {i \in 2..(Len(w) - 1) : SubSeq(w, 1, i) \in L /\ SubSeq(w, i + 1, Len(w)) \in R}
  IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
LeftOf(w, i) == SubSeq(w, 1, i)
RightOf(w, i) == SubSeq(w, i + 1, Len(w))
(* the lemmas of a word at the rightmost place that has known ones *)
LemmasAt(w, i, stems, ends) == LET ok(p) == p[1] \in stems /\ p[2] \in ends IN LemmasAmong(LeftOf(w, i), RightOf(w, i), ok)
Lemmatized(w, stems, ends) ==
  LET at == TLCEval([i \in 1..Len(w) |-> LemmasAt(w, i, stems, ends)])
      is == {i \in 1..Len(w) : at[i] # {}}
  IN IF is = {} THEN {} ELSE at[CHOOSE i \in is : \A j \in is : j <= i]

(* 1: whole words *)
MatchWords(k, f) ==
  LET t == [noun |-> Only(f, k.nouns), adj |-> Only(f, DOMAIN k.adjs), verb |-> Only(f, DOMAIN k.verbs), adv |-> Only(f, k.advs), josa |-> <<>>]
  IN [t |-> t, left |-> But(f, k.nouns \cup DOMAIN k.adjs \cup DOMAIN k.verbs \cup k.advs)]
(* 2: noun and particle, adjective or verb that were seen *)
NounAnd(k, t, f) ==
  LET N == DOMAIN t.noun
      cuts(S) == TLCEval([w \in DOMAIN f |-> CutAt(w, N, S)])
      cutJ == cuts(k.josas)   cutA == cuts(DOMAIN t.adj)   cutV == cuts(DOMAIN t.verb)
      J == {w \in DOMAIN f : cutJ[w] > 0}  A == {w \in DOMAIN f : cutA[w] > 0}  V == {w \in DOMAIN f : cutV[w] > 0}
      lJ(w) == LeftOf(w, cutJ[w])  lA(w) == LeftOf(w, cutA[w])  lV(w) == LeftOf(w, cutV[w])
      rJ(w) == RightOf(w, cutJ[w])  rA(w) == RightOf(w, cutA[w])  rV(w) == RightOf(w, cutV[w])
  IN [t |-> [t EXCEPT !.noun = AddKeys(AddKeys(AddKeys(@, Give(f, J, lJ)), Give(f, A, lA)), Give(f, V, lV)),
                      !.josa = Give(f, J, rJ), !.adj = AddKeys(@, Give(f, A, rA)), !.verb = AddKeys(@, Give(f, V, rV))],
      left |-> But(f, J \cup A \cup V)]
(* 3: predicator and adjective or verb *)
CanJoin(chat, s, e) ==
  LET l == C!Letters(C!Last(s))  r == C!Letters(e[1])
  IN /\ ~(chat /\ C!Last(s) \in {50629, 45823, 46411})
     /\ ~(l[3] \in {C!RR, C!BB} /\ r[1] \in {C!NN, C!RR, C!M, C!BB})
     /\ ~(l[2] = C!vEU /\ l[3] = C!Blank /\ r[1] = C!O /\ r[2] \in {C!vEO, C!vA})
Joined(chat, P, base, f, known) ==     \* word -> lemmas with new stems
  LET cut(w) == CutAt(w, P, DOMAIN base)
      of(w) == LET i == cut(w) IN {<<LeftOf(w, i) \o c[1], c[2]>> : c \in base[RightOf(w, i)]}
      new(w) == {c \in of(w) : c[1] \notin known /\ CanJoin(chat, c[1], c[2])}
      all == TLCEval([w \in {w \in DOMAIN f : cut(w) > 0} |-> new(w)])
  IN TLCEval([w \in {w \in DOMAIN all : all[w] # {}} |-> all[w]])
(* chat: new stems that nearly always have an ending beginning with a lone consonant are wrong *)
WrongStems(m, f) ==
  LET cs == UNION {{<<w, c>> : c \in m[w]} : w \in DOMAIN m}
      total(S) == FoldSet(LAMBDA x, a : a + f[x[1]], 0, S)
  IN {s \in {x[2][1] : x \in cs} :
        LET S == {x \in cs : x[2][1] = s} IN 10 * total({x \in S : C!IsJaum(x[2][2][1])}) >= 9 * total(S)}
WithoutStems(m, S) == LET n == TLCEval([w \in DOMAIN m |-> {c \in m[w] : c[1] \notin S}]) IN TLCEval([w \in {w \in DOMAIN n : n[w] # {}} |-> n[w]])
Parsed(chat, P, base, f, known) ==
  LET m == Joined(chat, P, base, f, known) IN IF chat THEN WithoutStems(m, WrongStems(m, f)) ELSE m
(* chat: endings seen in more new words than known ones are wrong *)
WrongEnds(dict, new) ==
  LET n(e, W) == FoldSet(LAMBDA w, a : a + Cardinality({c \in dict[w] : c[2] = e}), 0, W)
  IN {e \in {c[2] : c \in UNION {dict[w] : w \in DOMAIN new}} : n(e, DOMAIN new) > n(e, DOMAIN dict \ DOMAIN new)}
StemsIn(m) == {c[1] : c \in UNION {m[w] : w \in DOMAIN m}}
Compounds(chat, k, t, f) ==
  LET P == DOMAIN k.adjs \cup DOMAIN k.verbs
      a == Parsed(chat, P, k.adjs, f, k.astems \cup k.vstems)
      as == k.astems \cup StemsIn(a)
      v == Parsed(chat, P, k.verbs, f, as \cup k.vstems)
      adjs == Over(k.adjs, a)   verbs == Over(k.verbs, v)
      adj == AddKeys(t.adj, Only(f, DOMAIN a))   verb == AddKeys(t.verb, Only(f, DOMAIN v))
  IN [k |-> [k EXCEPT !.adjs = adjs, !.verbs = verbs, !.astems = as, !.vstems = @ \cup StemsIn(v),
                      !.ends = IF chat THEN @ \ (WrongEnds(adjs, a) \cup WrongEnds(verbs, v)) ELSE @],
      t |-> [t EXCEPT !.adj = adj, !.verb = verb],
      left |-> But(f, DOMAIN adj \cup DOMAIN verb)]
(* 4: known stem and known ending *)
Lemmatize(k, t, f) ==
  LET la == TLCEval([w \in DOMAIN f |-> Lemmatized(w, k.astems, k.ends)])
      lv == TLCEval([w \in DOMAIN f |-> Lemmatized(w, k.vstems, k.ends)])
      A == {w \in DOMAIN f : la[w] # {}}   V == {w \in DOMAIN f : lv[w] # {}}
  IN [k |-> [k EXCEPT !.adjs = Over(@, Only(la, A)), !.verbs = Over(@, Only(lv, V))],
      t |-> [t EXCEPT !.adj = AddKeys(@, Only(f, A)), !.verb = AddKeys(@, Only(f, V))],
      left |-> But(f, A \cup V)]
(* 5: one syllable and what was seen *)
Syllable1(t, f) ==
  LET rest(w) == SubSeq(w, 2, Len(w))   one(w) == SubSeq(w, 1, 1)
      A == {w \in DOMAIN f : rest(w) \in DOMAIN t.adj}
      V == {w \in DOMAIN f : rest(w) \in DOMAIN t.verb}
      J == {w \in DOMAIN f : rest(w) \in DOMAIN t.josa}
  IN [t |-> [t EXCEPT !.noun = AddKeys(AddKeys(AddKeys(@, Give(f, A, one)), Give(f, V, one)), Give(f, J, one)),
                      !.adj = AddKeys(@, Give(f, A, rest)), !.verb = AddKeys(@, Give(f, V, rest)), !.josa = AddKeys(@, Give(f, J, rest))],
      left |-> But(f, A \cup V \cup J)]
(* 6: bare particles, endings and single characters are not reported *)
Irregular(k, f) == {w \in DOMAIN f : w \in k.josas \/ w \in k.ends \/ Len(w) = 1}
(* 7, news only: compound nouns *)
CompoundNoun(toks, suffix) ==
  LET n == Len(toks)
      join(m) == Concat([i \in 1..m |-> toks[i][1]])
  IN IF \E i \in 1..(n - 1) : toks[i][4] <= 0 THEN <<>>
     ELSE IF n >= 3 /\ toks[n][1] \in suffix THEN join(n - 1)
     ELSE IF toks[n][4] > 0 THEN join(n) ELSE <<>>
NounCompounds(t, f) ==
  LET d == [w \in {w \in DOMAIN t.noun : Len(w) > 1} |-> 1]
      suffix == DOMAIN t.noun \cup DOMAIN t.adj \cup DOMAIN t.verb \cup DOMAIN t.josa
      of == TLCEval([w \in DOMAIN f |-> CompoundNoun(G!Segment(d, 10, 0, w), suffix)])
      W == {w \in DOMAIN f : of[w] # <<>>}
      g(w) == of[w]
  IN [t |-> [t EXCEPT !.noun = AddKeys(@, Give(f, W, g))], left |-> But(f, W)]
(* 8: nouns that are something else, too *)
Confused(chat, t) ==
  {w \in DOMAIN t.noun : \/ w \in DOMAIN t.adj \cup DOMAIN t.verb \cup DOMAIN t.adv
                         \/ chat /\ Len(w) > 2 /\ \E i \in 1..(Len(w) - 1) : RightOf(w, i) \in DOMAIN t.josa \cup DOMAIN t.adj \cup DOMAIN t.verb}
Answer(chat, k, t, f) ==
  LET x == Confused(chat, t)
      tagged(g, dict) == [w \in DOMAIN g |-> <<g[w], IF w \in DOMAIN dict THEN dict[w] ELSE {}>>]
  IN [noun |-> But(t.noun, x), confused |-> Only(t.noun, x), adj |-> tagged(t.adj, k.adjs), verb |-> tagged(t.verb, k.verbs),
      adv |-> t.adv, rest |-> f, ends |-> k.ends, astems |-> k.astems, vstems |-> k.vstems, josas |-> k.josas]

-----------------------------------------------------------------------------
NoTally == [noun |-> <<>>, adj |-> <<>>, verb |-> <<>>, adv |-> <<>>, josa |-> <<>>]
NpInit == kind = "" /\ know = <<>> /\ tally = NoTally /\ left = <<>> /\ out = <<>> /\ stage = "new"
Chat == kind = "chat"
Learn(c, k) == stage \in {"new", "done"} /\ kind' = c /\ know' = k /\ stage' = "known" /\ UNCHANGED <<tally, left, out>>
(* josas: the particles that chat text is searched for *)
Begin(josas) ==
  /\ stage \in {"known", "done"} /\ tally' = NoTally /\ left' = know.words /\ stage' = "words"
  /\ know' = (IF Chat THEN [know EXCEPT !.josas = josas] ELSE know) /\ UNCHANGED <<kind, out>>
Words == stage = "words" /\ stage' = "nouns" /\ (LET r == MatchWords(know, left) IN tally' = r.t /\ left' = r.left) /\ UNCHANGED <<kind, know, out>>
Nouns == stage = "nouns" /\ stage' = "joined" /\ (LET r == NounAnd(know, tally, left) IN tally' = r.t /\ left' = r.left) /\ UNCHANGED <<kind, know, out>>
Join == /\ stage = "joined" /\ stage' = "lemma"
        /\ (LET r == Compounds(Chat, know, tally, left) IN know' = r.k /\ tally' = r.t /\ left' = r.left) /\ UNCHANGED <<kind, out>>
Lemma == /\ stage = "lemma" /\ stage' = "one"
         /\ (LET r == Lemmatize(know, tally, left) IN know' = r.k /\ tally' = r.t /\ left' = r.left) /\ UNCHANGED <<kind, out>>
One == stage = "one" /\ stage' = "drop" /\ (LET r == Syllable1(tally, left) IN tally' = r.t /\ left' = r.left) /\ UNCHANGED <<kind, know, out>>
Skip == stage = "drop" /\ stage' = (IF Chat THEN "end" ELSE "compound") /\ left' = But(left, Irregular(know, left)) /\ UNCHANGED <<kind, know, tally, out>>
Compound == stage = "compound" /\ stage' = "end" /\ (LET r == NounCompounds(tally, left) IN tally' = r.t /\ left' = r.left) /\ UNCHANGED <<kind, know, out>>
End == stage = "end" /\ stage' = "done" /\ out' = Answer(Chat, know, tally, left) /\ UNCHANGED <<kind, know, tally, left>>
(* the same in one step, for replay *)
ExtractAll(josas) ==
  /\ stage \in {"known", "done"} /\ stage' = "done" /\ UNCHANGED kind
  /\ \E k0 \in {IF Chat THEN [know EXCEPT !.josas = josas] ELSE know} :
     \E a \in {MatchWords(k0, k0.words)} :
     \E b \in {NounAnd(k0, a.t, a.left)} :
     \E c \in {Compounds(Chat, k0, b.t, b.left)} :
     \E d \in {Lemmatize(c.k, c.t, c.left)} :
     \E e \in {Syllable1(d.t, d.left)} :
     \E f \in {But(e.left, Irregular(d.k, e.left))} :
     \E g \in {IF Chat THEN [t |-> e.t, left |-> f] ELSE NounCompounds(e.t, f)} :
       know' = d.k /\ tally' = g.t /\ left' = g.left /\ out' = Answer(Chat, d.k, g.t, g.left)

-----------------------------------------------------------------------------
Done == stage = "done"
Counts(f) == FoldSet(LAMBDA w, a : a + f[w], 0, DOMAIN f)
(* what is left are eojeols with their counts *)
LeftExact == stage \notin {"new", "known"} => \A w \in DOMAIN left : w \in DOMAIN know.words /\ left[w] = know.words[w]
RestUnknown == Done => \A w \in DOMAIN out.rest :
  /\ Len(w) > 1 /\ w \notin know.nouns \cup know.advs \cup know.josas \cup know.ends
  /\ w \notin DOMAIN know.adjs \cup DOMAIN know.verbs
  /\ Lemmatized(w, know.astems, know.ends) = {} /\ Lemmatized(w, know.vstems, know.ends) = {}
(* nothing explained is lost: the counts reported never fall below those of the eojeols explained *)
Dropped == {w \in DOMAIN know.words : w \in know.josas \/ w \in know.ends \/ Len(w) = 1}
NothingLost == Done => Counts(tally.noun) + Counts(tally.adj) + Counts(tally.verb) + Counts(tally.adv) + Counts(left)
                       >= Counts(But(know.words, Dropped))
NounsParted == Done => DOMAIN out.noun \cap DOMAIN out.confused = {} /\ Over(out.noun, out.confused) = tally.noun
LemmasKnown == Done => \A w \in DOMAIN tally.adj : w \in DOMAIN know.adjs /\ know.adjs[w] # {}
VerbsKnown == Done => \A w \in DOMAIN tally.verb : w \in DOMAIN know.verbs
NewStemsKnown == Done => \A w \in DOMAIN out.adj : \A c \in out.adj[w][2] : c[1] \in know.astems
=============================================================================

------------------------------- MODULE NounV2 -------------------------------
(* LRNounExtractor_v2: nouns from the right parts their eojeols take.        *)
(*   ft    feature sets: pos (particles), neg (endings), com (both)          *)
(*   rel   the L-R relation the extractor works on, origin the one it was    *)
(*         trained on                                                        *)
(*   pred  word -> <<support, numerator, denominator of its score>>          *)
(*   nouns noun -> the same, what the last extraction answered               *)
(* Thresholds on scores are rationals <<p, q>>.                              *)
EXTENDS LRRel, Entropy

VARIABLES cf,      \* lmax, rmax, minf, maxend, compound (look for compounds), steps (post-processing, in order)
          ft, rel, origin, pred, comp, nouns,
          args,    \* of the running extraction: [min score, minf minimum frequency, reset]
          todo,    \* words still to be judged, post-processing steps still to be done
          phase    \* "idle", "predict", "compound", "post", "flush"
nvvars == <<cf, ft, rel, origin, pred, comp, nouns, args, todo, phase>>

Reaches(x, q) == x[2] * q[2] >= q[1] * x[3]           \* score at least q
Beats(x, q) == x[2] * q[2] > q[1] * x[3]
(* a longer right part reaching back into the word is a feature itself *)
Longer(S, w, r) == \E i \in 1..Len(w) : (SubSeq(w, i, Len(w)) \o r) \in S
Kind(F, w, r) ==
  IF r = <<>> THEN "end"
  ELSE IF Longer(F.pos, w, r) \/ Longer(F.neg, w, r) THEN "skip"
  ELSE IF r \in F.com THEN "com" ELSE IF r \in F.pos THEN "pos" ELSE IF r \in F.neg THEN "neg" ELSE "unk"
Judge(F, c, R, w, q) ==
  LET rs == Rights(R, w)
      total(k) == Weight(R, w, {r \in rs : Kind(F, w, r) = k})
      pos == total("pos")  com == total("com")  neg == total("neg")  unk == total("unk")  end == total("end")
      num == IF pos + neg = 0 THEN 0 ELSE pos - neg
      den == IF pos + neg = 0 THEN 1 ELSE pos + neg
      support == IF Reaches(<<0, num, den>>, q) THEN pos + end + com ELSE neg + end + com
      known == {r \in rs : \/ (r \in F.pos /\ ~Longer(F.pos, w, r))
                           \/ (r \in F.neg /\ ~Longer(F.neg, w, r))}
      heads == {r[1] : r \in {r \in rs : r # <<>> /\ (r \in F.pos \cup F.com => ~Longer(F.pos, w, r))}}
      all == pos + com + neg + unk + end
      lone == <<pos + com + end, pos + com + end, all>>
  IN IF Cardinality(known) > c.minf THEN <<support, num, den>>
     ELSE IF all = 0 THEN <<support, 0, 1>>
     ELSE IF end > c.maxend /\ pos >= neg THEN <<support, num, den>>
     ELSE IF com + pos > 0 /\ 10 * end >= 3 * all /\ com >= neg THEN lone
     ELSE IF Cardinality(heads) >= 2 THEN lone
     ELSE <<support, 0, 1>>

CandidatesIn2(F, R) == {k[1] : k \in {k \in DOMAIN R : k[2] \in F.pos}}
(* all candidates, longer words first: <<judgements, relation left>> *)
RECURSIVE JudgeAll(_, _, _, _, _, _)
JudgeAll(F, c, R, W, q, acc) ==
  IF W = {} THEN <<acc, R>>
  ELSE LET now == Longest(W)
           p == [w \in now |-> Judge(F, c, R, w, q)]
           good == {w \in now : Reaches(p[w], q)}
       IN JudgeAll(F, c, Consume(R, good, AnyR), W \ now, q, acc @@ p)

(* compounds *)
Parts(P, q) == [w \in {w \in DOMAIN P : Beats(P[w], q) /\ Len(w) > 1} |-> Len(w)]
G == INSTANCE GreedySeg
Parse(F, toks) ==
  LET n == Len(toks) IN
  IF \E i \in 1..(n - 1) : toks[i][4] <= 0 THEN <<>>
  ELSE IF n >= 3 /\ toks[n][1] \in F.pos THEN [i \in 1..(n - 1) |-> toks[i][1]]
  ELSE IF toks[n][4] > 0 THEN [i \in 1..n |-> toks[i][1]]
  ELSE <<>>
Decompose(F, parts, w) == Parse(F, G!Segment(parts, 10, 0, w))
BestScore(P, ws) ==
  LET better(x, y) == IF x[2] * y[3] > y[2] * x[3] THEN x ELSE y
  IN FoldSet(LAMBDA w, a : better(P[w], a), <<0, 0, 1>>, ws)
Compounds(F, P, O, q) ==
  LET parts == Parts(P, q)
      cands == {w \in {k[1] : k \in DOMAIN O} : Len(w) >= 4} \ DOMAIN parts
      parsed == [w \in cands |-> Decompose(F, parts, w)]
      found == {w \in cands : parsed[w] # <<>>}
      from(n) == {w \in found : Concat(parsed[w]) = n}
      freq(n) == FoldSet(LAMBDA w, a : a + Get(O, <<w, <<>>>>, 0), 0, from(n))
      best(n) == BestScore(P, UNION {SeqRange(parsed[w]) : w \in from(n)})
  IN [n \in {Concat(parsed[w]) : w \in found} |-> <<freq(n), best(n)[2], best(n)[3]>>]

(* post-processing *)
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Detach(F, N) ==
  {w \in DOMAIN N : Len(w) > 2 /\ \E e \in 2..(Len(w) - 2) :
      SubSeq(w, 1, e) \in DOMAIN N /\ SubSeq(w, e + 1, Len(w)) \in F.pos}
Features(F, N) == {w \in DOMAIN N : w \in F.pos \cup F.com}
WithParticle(c, N, O) ==
  {w \in DOMAIN N : Len(w) > 2 /\ \E i \in 2..(Len(w) - 1) :
      LET l == SubSeq(w, 1, i)  r == SubSeq(w, i + 1, Len(w))
      IN /\ r \in c.josa /\ r \notin c.suffix /\ l \in DOMAIN N /\ N[w][1] < N[l][1]
         /\ Cardinality(Rights(O, l) \cap c.josa) >= 5}
PostStep(c, F, N, O, m) ==
  Without(N, CASE m = "detaching_features" -> Detach(F, N) [] m = "ignore_features" -> Features(F, N)
               [] m = "ignore_NJ" -> WithParticle(c, N, O) [] OTHER -> {})
RECURSIVE Post(_, _, _, _, _)
Post(c, F, N, O, ms) == IF ms = <<>> THEN N ELSE Post(c, F, PostStep(c, F, N, O, Head(ms)), O, Tail(ms))

(* what is left for others, for instance verbs: the eojeols of nouns leave;
   a noun of one character takes only those with a particle *)
FlushOk(F, w, r) == Len(w) > 1 \/ r = <<>> \/ r \in F.pos \cup F.com
RECURSIVE Flush(_, _, _)
Flush(F, R, W) ==
  IF W = {} THEN R
  ELSE LET now == Longest(W) ok(w, r) == FlushOk(F, w, r) IN Flush(F, Consume(R, now, ok), W \ now)
Flushed(F, O, N) == Flush(F, O, CandidatesIn2(F, O) \cap DOMAIN N)

Single(P, q) == [w \in {w \in DOMAIN P : Reaches(P[w], q)} |-> P[w]]
Merged(P, C, q, mf) == LET f == C @@ Single(P, q) IN [w \in {w \in DOMAIN f : f[w][1] >= mf} |-> f[w]]

-----------------------------------------------------------------------------
(* particles of the domain: right parts of found nouns *)
LastCount(R, r) ==
  LET ls == {l \in LeftsOf(R, r) : Len(l) > 1 /\ r # <<>>}
  IN [z \in {l[Len(l)] : l \in ls} |-> FoldSet(LAMBDA l, a : a + R[<<l, r>>], 0, {l \in ls : l[Len(l)] = z})]
JoinedOf(r, N, known) ==       \* the shortest noun r begins with is followed by a known particle
  LET is == {i \in 1..(Len(r) - 1) : SubSeq(r, 1, i) \in N}
  IN is # {} /\ LET i == CHOOSE i \in is : \A j \in is : i <= j IN SubSeq(r, i + 1, Len(r)) \in known
ParticleScore(R, r, N, known, a) ==   \* <<frequency, numerator, denominator>>, <<0, 0, 1>> for too uniform ones
  LET ls == {l \in LeftsOf(R, r) : Len(l) > 1 /\ r # <<>>}
      sum(S) == FoldSet(LAMBDA l, x : x + R[<<l, r>>], 0, S)
      longer(l) == \E i \in 1..Len(r) : (l \o SubSeq(r, 1, i)) \in N
      neg == IF JoinedOf(r, N, known) THEN ls ELSE {l \in ls : longer(l)}
      p == sum({l \in ls \ neg : l \in N})  n == sum(neg)  u == sum({l \in ls \ neg : l \notin N})
      num == IF p + n = 0 THEN 0 ELSE p - n
      den == IF p + n = 0 THEN 1 ELSE p + n
      f == IF Reaches(<<0, num, den>>, a.pscore) THEN p ELSE n + u
      last == LastCount(R, r)
  IN IF Cardinality(DOMAIN last) < a.nlast \/ Entropy(last) < a.elast THEN <<0, 0, 1>>
     ELSE IF f < a.pfreq THEN <<f, 0, 1>> ELSE <<f, num, den>>
NounSpread(R, r, N) == [l \in {l \in LeftsOf(R, r) : Len(l) > 1 /\ r # <<>> /\ l \in N} |-> R[<<l, r>>]]
DomainCandidates(F, P, R, a) ==
  LET N == {w \in DOMAIN P : Reaches(P[w], a.nscore) /\ P[w][1] >= a.nfreq}
      rs == {k[2] : k \in {k \in DOMAIN R : k[1] \in N}} \ (F.pos \cup a.ignore)
  IN {r \in rs : FoldSet(LAMBDA w, x : x + Get(R, <<w, r>>, 0), 0, N) >= a.pfreq /\ r \notin N}
RECURSIVE DomainOf(_, _, _, _, _, _)
DomainOf(R, N, known, W, a, acc) ==
  IF W = {} THEN acc
  ELSE LET m == FoldSet(LAMBDA r, x : Min2(Len(r), x), 1000, W)
           now == {r \in W : Len(r) = m}
           sc == [r \in now |-> ParticleScore(R, r, N, known, a)]
           good == {r \in now : Reaches(sc[r], a.pscore) /\ sc[r][1] >= a.pfreq /\ Entropy(NounSpread(R, r, N)) >= a.enoun}
       IN DomainOf(R, N, known \cup good, W \ now, a, acc @@ [r \in good |-> sc[r]])
DomainParticles(F, P, R, a) ==
  DomainOf(R, {w \in DOMAIN P : Reaches(P[w], a.nscore) /\ P[w][1] >= a.nfreq}, F.pos, DomainCandidates(F, P, R, a), a, <<>>)
WithParticles(F, new) == [F EXCEPT !.pos = @ \cup (new \ F.neg), !.com = @ \cup (new \cap F.neg)]

-----------------------------------------------------------------------------
(* the extraction as a process *)
NvInit == cf = <<>> /\ ft = <<>> /\ rel = NoRel /\ origin = NoRel /\ pred = <<>> /\ comp = <<>> /\ nouns = <<>>
          /\ args = <<>> /\ todo = {} /\ phase = "new"
Make(c, F) == phase = "new" /\ cf' = c /\ ft' = F /\ phase' = "idle" /\ UNCHANGED <<rel, origin, pred, comp, nouns, args, todo>>
Train(R) == phase = "idle" /\ rel' = R /\ origin' = R /\ UNCHANGED <<cf, ft, pred, comp, nouns, args, todo, phase>>
Start(a) == /\ phase = "idle" /\ args' = a /\ todo' = CandidatesIn2(ft, rel) /\ pred' = <<>> /\ phase' = "predict"
            /\ UNCHANGED <<cf, ft, rel, origin, comp, nouns>>
PredictOne(w) ==
  /\ phase = "predict" /\ w \in Longest(todo)
  /\ LET p == Judge(ft, cf, rel, w, args.min)
     IN pred' = pred @@ (w :> p) /\ rel' = IF Reaches(p, args.min) THEN Consume(rel, {w}, AnyR) ELSE rel
  /\ todo' = todo \ {w} /\ UNCHANGED <<cf, ft, origin, comp, nouns, args, phase>>
Combine ==
  /\ phase = "predict" /\ todo = {}
  /\ comp' = IF cf.compound THEN Compounds(ft, pred, origin, args.min) ELSE <<>>
  /\ nouns' = Merged(pred, comp', args.min, args.minf)
  /\ todo' = cf.steps /\ phase' = "post" /\ UNCHANGED <<cf, ft, rel, origin, pred, args>>
PostOne ==
  /\ phase = "post" /\ todo # <<>>
  /\ nouns' = PostStep(cf, ft, nouns, origin, Head(todo))
  /\ todo' = Tail(todo) /\ UNCHANGED <<cf, ft, rel, origin, pred, comp, args, phase>>
Finish ==
  /\ phase = "post" /\ todo = <<>>
  /\ rel' = IF args.reset THEN origin ELSE Flushed(ft, origin, nouns)
  /\ todo' = {} /\ phase' = "idle" /\ UNCHANGED <<cf, ft, origin, pred, comp, nouns, args>>
(* the whole extraction, as one call *)
ExtractAll(a) ==
  LET ja == JudgeAll(ft, cf, rel, CandidatesIn2(ft, rel), a.min, <<>>)
      c == IF cf.compound THEN Compounds(ft, ja[1], origin, a.min) ELSE <<>>
      n == Post(cf, ft, Merged(ja[1], c, a.min, a.minf), origin, cf.steps)
  IN /\ phase = "idle" /\ args' = a /\ pred' = ja[1] /\ comp' = c /\ nouns' = n
     /\ rel' = (IF a.reset THEN origin ELSE Flushed(ft, origin, n)) /\ UNCHANGED <<cf, ft, origin, todo, phase>>
ExtractParticles(a, given, append) ==
  LET ja == JudgeAll(ft, cf, rel, given, a.nscore, <<>>)
      d == DomainParticles(ft, ja[1], origin, a)
  IN /\ phase = "idle" /\ rel' = origin /\ ft' = (IF append THEN WithParticles(ft, DOMAIN d) ELSE ft)
     /\ args' = [found |-> d] /\ UNCHANGED <<cf, origin, pred, comp, nouns, todo, phase>>
(* extraction that first looks for particles of the domain: p is what is asked
   of them.  The candidates are those of the particles known before. *)
ExtractWithParticles(a, p) ==
  LET cands == CandidatesIn2(ft, rel)
      F == WithParticles(ft, DOMAIN DomainParticles(ft, JudgeAll(ft, cf, rel, cands, p.nscore, <<>>)[1], origin, p))
      ja == JudgeAll(F, cf, origin, cands, a.min, <<>>)
      c == IF cf.compound THEN Compounds(F, ja[1], origin, a.min) ELSE <<>>
      n == Post(cf, F, Merged(ja[1], c, a.min, a.minf), origin, cf.steps)
  IN /\ phase = "idle" /\ args' = a /\ ft' = F /\ pred' = ja[1] /\ comp' = c /\ nouns' = n
     /\ rel' = (IF a.reset THEN origin ELSE Flushed(F, origin, n)) /\ UNCHANGED <<cf, origin, todo, phase>>

-----------------------------------------------------------------------------
SomethingFound == phase = "idle" /\ "min" \in DOMAIN args
Thresholds == SomethingFound => \A w \in DOMAIN nouns : nouns[w][1] >= args.minf
                                  /\ (w \notin DOMAIN comp => Reaches(nouns[w], args.min))
FromSomewhere == SomethingFound => \A w \in DOMAIN nouns : w \in DOMAIN comp \/ w \in DOMAIN pred
CompoundsSplit == SomethingFound => \A w \in DOMAIN comp : comp[w][1] >= 0 /\ Beats(comp[w], args.min)
Resettable == SomethingFound /\ args.reset => rel = origin
ScoreRange == \A w \in DOMAIN pred : pred[w][2] <= pred[w][3] /\ pred[w][2] >= -pred[w][3]
NoFeature == SomethingFound /\ "ignore_features" \in SeqRange(cf.steps) => DOMAIN nouns \cap (ft.pos \cup ft.com) = {}
Leftover == SomethingFound => \A k \in DOMAIN rel : k \in DOMAIN origin /\ rel[k] > 0 /\ rel[k] <= origin[k]
(* the order among words of one length does not matter *)
OrderFree == phase = "predict" /\ todo = {} => pred = JudgeAll(ft, cf, args.rel, CandidatesIn2(ft, args.rel), args.min, <<>>)[1]
=============================================================================

---------------------------- MODULE TR_PosExtract ----------------------------
EXTENDS PosExtract, TraceIO
VARIABLES t, c
vars == <<povars, t, c>>
T == Trace[t]
E == T.runs[c]
Set(s) == SeqRange(s)
Init == t \in 1..Len(Trace) /\ c = 1 /\ PoInit
Tables == [lmax |-> T.lmax, rmax |-> T.rmax, feats |-> [pos |-> Set(T.pos) \ Set(T.neg), neg |-> Set(T.neg) \ Set(T.pos), com |-> Set(T.pos) \cap Set(T.neg)],
           josa |-> Set(T.josa), suffix |-> Set(T.suffix), josas |-> Set(T.josas), adjs |-> Set(T.adjs), verbs |-> Set(T.verbs), ends |-> Set(T.ends)]
(* E.sents: <<sentence, how often it occurs>> *)
Counted(ss, minc, maxlen) ==
  LET toks == TLCEval([i \in 1..Len(ss) |-> SplitWhite(ss[i][1])])
      add(i, acc) == FoldSet(LAMBDA j, a : TLCEval([x \in DOMAIN a \cup {toks[i][j]} |-> Get(a, x, 0) + IF x = toks[i][j] THEN ss[i][2] ELSE 0]),
                             acc, 1..Len(toks[i]))
      f == TLCEval(FoldSet(add, <<>>, 1..Len(ss)))
  IN TLCEval([w \in {w \in DOMAIN f : f[w] >= minc /\ Len(w) <= maxlen} |-> f[w]])
Doubtful ==
  LET a == lim.parts
      P == NV!JudgeAll(nft, ncf, nrel, NV!CandidatesIn2(nft, nrel), a.nscore, <<>>)[1]
      near(x, y) == Abs(x - y) <= 2 * EntropyError
  IN \E r \in NV!DomainCandidates(nft, P, norigin, a) :
       near(Entropy(NV!LastCount(norigin, r)), a.elast)
       \/ near(Entropy(NV!NounSpread(norigin, r, {w \in DOMAIN P : NV!Reaches(P[w], a.nscore) /\ P[w][1] >= a.nfreq})), a.enoun)
Near(x, s) == Abs(s * x[3] - x[2] * 100000) <= x[3]        \* scores in 1/100000
Shown(x) == {<<y[1], y[2], Set(y[3])>> : y \in Set(x)}
Want(p) == {<<w, pargs.from[w], p[w]>> : w \in DOMAIN p}
Same(x, p) == Shown(x) = Want(p) /\ Len(x) = Cardinality(Want(p))
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE IF {x[1] : x \in Set(E.nouns)} # DOMAIN nnouns \/ Len(E.nouns) # Cardinality(DOMAIN nnouns) THEN "the nouns"
  ELSE IF \E x \in Set(E.nouns) : x[2] # nnouns[x[1]][1] THEN "a frequency"
  ELSE IF \E x \in Set(E.nouns) : ~Near(nnouns[x[1]], x[3]) THEN "a score"
  ELSE IF punsure THEN ""
  ELSE IF ~Same(E.adjs, padjs) THEN "the adjectives"
  ELSE IF ~Same(E.verbs, pverbs) THEN "the verbs"
  ELSE ""
Expected == [nouns |-> ListOf({<<w, nnouns[w]>> : w \in DOMAIN nnouns}),
             adjs |-> ListOf({<<w, pargs.from[w], ListOf(padjs[w])>> : w \in DOMAIN padjs}),
             verbs |-> ListOf({<<w, pargs.from[w], ListOf(pverbs[w])>> : w \in DOMAIN pverbs})]
Fresh == /\ ncf' = <<>> /\ nft' = <<>> /\ nrel' = NoRel /\ norigin' = NoRel /\ npred' = <<>> /\ ncomp' = <<>> /\ nnouns' = <<>> /\ nargs' = <<>>
         /\ ntodo' = {} /\ nphase' = "new" /\ pcf' = <<>> /\ pnouns' = {} /\ pstems' = {} /\ pends' = {} /\ pcounts' = <<>> /\ pargs' = <<>>
         /\ ptodo' = {} /\ ppreds' = <<>> /\ padjs' = <<>> /\ pverbs' = <<>> /\ punsure' = FALSE /\ pphase' = "new" /\ at' = "new" /\ lim' = <<>>
Next ==
  \/ c <= Len(T.runs) /\ UNCHANGED <<t, c>>
     /\ (Make(Limits, Tables) \/ (at = "idle" /\ Count(Counted(E.sents, lim.minc, T.lmax + T.rmax))) \/ HandOver \/ Learn \/ FindPredicators)
  \/ c <= Len(T.runs) /\ at = "counted" /\ \E d \in {Doubtful} :
       IF d THEN Accept(t) /\ c' = 1000000 /\ UNCHANGED <<povars, t>> ELSE FindNouns /\ UNCHANGED <<t, c>>
  \/ c <= Len(T.runs) /\ at = "done" /\ UNCHANGED t /\ Fresh
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, Expected) /\ c' = 1000000
  \/ c = Len(T.runs) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<povars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

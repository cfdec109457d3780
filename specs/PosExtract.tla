----------------------------- MODULE PosExtract -----------------------------
(* POSExtractor: nouns are extracted first, what no noun claims of the       *)
(* eojeols goes to the predicator extractor.  Composes the specifications of *)
(* the two extractors.                                                       *)
EXTENDS LRRel, Entropy
VARIABLES ncf, nft, nrel, norigin, npred, ncomp, nnouns, nargs, ntodo, nphase,
          pcf, pnouns, pstems, pends, pcounts, pargs, ptodo, ppreds, padjs, pverbs, punsure, pphase,
          at, lim
nounvars == <<ncf, nft, nrel, norigin, npred, ncomp, nnouns, nargs, ntodo, nphase>>
predvars == <<pcf, pnouns, pstems, pends, pcounts, pargs, ptodo, ppreds, padjs, pverbs, punsure, pphase>>
povars == <<nounvars, predvars, at, lim>>
NV == INSTANCE NounV2 WITH cf <- ncf, ft <- nft, rel <- nrel, origin <- norigin, pred <- npred, comp <- ncomp, nouns <- nnouns,
                           args <- nargs, todo <- ntodo, phase <- nphase
PR == INSTANCE Predicator WITH cf <- pcf, nouns <- pnouns, stems <- pstems, ends <- pends, counts <- pcounts, args <- pargs,
                               todo <- ptodo, preds <- ppreds, adjs <- padjs, verbs <- pverbs, unsure <- punsure, phase <- pphase

(* what POSExtractor.extract asks of its parts *)
Steps == <<"detaching_features", "ignore_features", "ignore_NJ">>
Limits == [minc |-> 2, minf |-> 2, maxend |-> 15, q |-> <<4, 10>>, nounfreq |-> 10,
           parts |-> [nscore |-> <<3, 10>>, nfreq |-> 100, pscore |-> <<3, 10>>, pfreq |-> 1000, nlast |-> 4, elast |-> 500000, enoun |-> 1500000, ignore |-> {}],
           pred |-> [q |-> <<3, 10>>, minf |-> 1, nmin |-> 5, sq |-> <<7, 10>>, sminf |-> 100, umin |-> 10, hmin |-> 500000],
           predc |-> 2, predfreq |-> 10]
RelOf(f, l, r) == LET keys == UNION {Allowed(w, l, r) : w \in DOMAIN f} IN TLCEval([k \in keys |-> f[k[1] \o k[2]]])
WordsIn(R) == LET X == {k[1] \o k[2] : k \in DOMAIN R}
              IN [x \in X |-> R[CHOOSE k \in DOMAIN R : k[1] \o k[2] = x]]

PoInit == NV!NvInit /\ PR!PrInit /\ at = "new" /\ lim = <<>>
(* t: lmax, rmax, feats, josa, suffix, josas, adjs, verbs, ends: the parameters and the tables soynlp comes with *)
Make(l, t) ==
  /\ at = "new" /\ lim' = l @@ [tables |-> t]
  /\ NV!Make([lmax |-> t.lmax, rmax |-> t.rmax, minf |-> l.minf, maxend |-> l.maxend, compound |-> FALSE, steps |-> Steps, josa |-> t.josa, suffix |-> t.suffix], t.feats)
  /\ at' = "idle" /\ UNCHANGED predvars
Count(f) == /\ at = "idle" /\ NV!Train(RelOf(f, lim.tables.lmax, lim.tables.rmax))
            /\ at' = "counted" /\ UNCHANGED <<predvars, lim>>
FindNouns == /\ at = "counted" /\ NV!ExtractWithParticles([min |-> lim.q, minf |-> lim.nounfreq, reset |-> FALSE], lim.parts)
             /\ at' = "nouns" /\ UNCHANGED <<predvars, lim>>
HandOver == /\ at = "nouns" /\ at' = "handed"
            /\ PR!Make([josas |-> lim.tables.josas, adjs |-> lim.tables.adjs, verbs |-> lim.tables.verbs, findends |-> TRUE, findstems |-> TRUE],
                       DOMAIN nnouns, lim.tables.ends)
            /\ UNCHANGED <<nounvars, lim>>
Learn == /\ at = "handed" /\ at' = "learnt" /\ PR!Train(PR!AtLeastCount(WordsIn(nrel), lim.predc), lim.pred) /\ UNCHANGED <<nounvars, lim>>
FindPredicators == /\ at = "learnt" /\ at' = "done" /\ PR!ExtractAll([from |-> PR!Offered(<<>>, lim.predfreq)]) /\ UNCHANGED <<nounvars, lim>>

-----------------------------------------------------------------------------
Finished == at = "done"
NounsWellFounded == Finished => NV!Thresholds /\ NV!ScoreRange /\ NV!Leftover
PredicatorsWellFounded == Finished => PR!Known /\ PR!NoNounJosa /\ PR!Parted
(* no eojeol that a noun of two characters or more begins, as far as it was cut there, is a predicator *)
NoneTwice == Finished => \A w \in DOMAIN ppreds : \A n \in DOMAIN nnouns :
               (Len(n) > 1 /\ Len(n) <= Len(w) /\ SubSeq(w, 1, Len(n)) = n) =>
                 <<n, SubSeq(w, Len(n) + 1, Len(w))>> \notin DOMAIN norigin \/ n \notin NV!CandidatesIn2(nft, norigin)
Frequencies == Finished => \A w \in DOMAIN ppreds : pargs.from[w] >= lim.predfreq /\ \E k \in DOMAIN norigin : k[1] \o k[2] = w /\ norigin[k] >= pargs.from[w]
=============================================================================

---------------------------- MODULE MC_Predicator ----------------------------
EXTENDS Predicator, TraceIO
CONSTANTS Pool, MaxWords, Counts, Confs, TrainArgs
VARIABLE src
vars == <<prvars, src>>
PoolQ == {<<44032, 44256>>, <<44032, 45716>>, <<53360>>, <<53356, 44256>>, <<44032>>, <<45440, 44256>>, <<45440, 47732>>, <<49324, 44284, 45716>>, <<44036, 51648>>, <<54028, 47000>>, <<51060, 45716>>, <<44032, 51648, 44256>>}
PoolT == {<<44032, 44256>>, <<44032, 45716>>, <<53360>>, <<53356, 44256>>, <<44032>>, <<45440, 44256>>, <<45440, 47732>>, <<49324, 44284, 45716>>, <<44036, 51648>>, <<54028, 47000>>, <<51060, 45716>>, <<44032, 51648, 44256>>, <<54620, 45796>>, <<54664, 45796>>, <<45440, 51088>>, <<45458, 51088>>, <<49884, 53412, 44256>>, <<44032, 47732>>, <<53356, 45716>>, <<45449, 45768, 45796>>, <<45436, 45796>>}
Ga == <<44032>>
Keu == <<53356>>
Par == <<54028, 46999>>
I == <<51060>>
Base == [josas |-> {<<45716>>}, adjs |-> {Keu, Par}, verbs |-> {Ga, I, Par}, findends |-> FALSE, findstems |-> FALSE]
NounsA == {<<49324, 44284>>, <<45440, 44256>>, <<51060, 45716>>, <<44032, 45716>>}
NounsB == {<<51060, 45716>>, <<53360>>}
EndsA == {<<44256>>, <<45716>>, <<50500>>, <<51648>>, <<12596>>}
ConfsQ == {<<[Base EXCEPT !.findends = b, !.findstems = b], ns, EndsA>> : b \in BOOLEAN, ns \in {NounsA, NounsB}}
ConfsT == {<<[Base EXCEPT !.findends = b, !.findstems = d], ns, EndsA>> : b \in BOOLEAN, d \in BOOLEAN, ns \in {NounsA, NounsB}}
ArgsQ == {[q |-> <<3, 10>>, minf |-> 1, nmin |-> 1, sq |-> <<7, 10>>, sminf |-> 1, umin |-> 1, hmin |-> 0]}
ArgsT == [q : {<<3, 10>>}, minf : {1, 2}, nmin : {1, 2}, sq : {<<1, 2>>}, sminf : {1}, umin : {0, 2}, hmin : {0}]
Init == PrInit /\ src = <<>>
DoMake == \E x \in Confs : Make(x[1], x[2], x[3]) /\ src' = <<x[2], x[3]>>
DoTrain == phase = "idle" /\ counts = <<>> /\ \E n \in 1..MaxWords : \E W \in kSubset(n, Pool) : \E f \in [W -> Counts], a \in TrainArgs :
             (n = MaxWords => \A w \in W : f[w] = f[CHOOSE x \in W : TRUE]) /\ Train(f, a) /\ src' = src \o <<a>>
DoStart == phase = "idle" /\ counts # <<>> /\ args = <<>> /\ Start([from |-> Offered(<<>>, 1)]) /\ UNCHANGED src
DoLemma == phase = "lemma" /\ \E w \in todo : LemmaOne(w) /\ UNCHANGED src
DoPrune == Prune /\ UNCHANGED src
DoSeparate == Separate /\ UNCHANGED src
Next == DoMake \/ DoTrain \/ DoStart \/ DoLemma \/ DoPrune \/ DoSeparate
Spec == Init /\ [][Next]_vars
Show(p) == ListOf({<<w, args.from[w], ListOf(p[w])>> : w \in DOMAIN p})
Emit == (Done /\ ~unsure) =>
        Case([words |-> ListOf({<<w, counts[w]>> : w \in DOMAIN counts}), nouns |-> ListOf(src[1]), ends |-> ListOf(src[2]), josas |-> ListOf(cf.josas),
              adjs |-> ListOf(cf.adjs), verbs |-> ListOf(cf.verbs), findends |-> cf.findends, findstems |-> cf.findstems, a |-> src[3],
              known |-> IF ends = src[2] THEN 0 ELSE 1, foundadjs |-> Show(adjs), foundverbs |-> Show(verbs)])
=============================================================================

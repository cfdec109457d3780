---------------------------- MODULE MC_EomiStem ----------------------------
EXTENDS EomiStem, TraceIO
CONSTANTS Pool, MaxWords, Counts, ArgSet, KnownSet
VARIABLE src
vars == <<esvars, src>>
PoolQ == {<<44032, 44256>>, <<44032, 47732>>, <<44036, 45796>>, <<44032, 49436>>, <<45440, 44256>>, <<45440, 47732>>, <<45436, 45796>>, <<50504, 44032, 44256>>, <<54616, 44256>>, <<54644, 49436>>, <<44032, 44256, 44256>>, <<45440>>, <<44032>>, <<45208, 44032, 44256>>}
PoolT == {<<44032, 44256>>, <<44032, 47732>>, <<44036, 45796>>, <<44032, 49436>>, <<45440, 44256>>, <<45440, 47732>>, <<45436, 45796>>, <<50504, 44032, 44256>>, <<54616, 44256>>, <<54644, 49436>>, <<44032, 44256, 44256>>, <<45440>>, <<44032>>, <<45208, 44032, 44256>>, <<54644>>, <<54664, 45796>>, <<54620>>, <<45440, 44256, 44032, 44256>>, <<47673, 44256>>, <<47673, 50612>>, <<49324, 44284, 44256>>, <<45440, 50500>>, <<44052, 45796>>, <<45432, 45768>>}
Ga == <<44032>>
Ha == <<54616>>
KnownQ == {[stems |-> {Ga}, nouns |-> {<<50504>>}, ends |-> {<<44256>>, <<47732>>}], [stems |-> {Ga, Ha}, nouns |-> {}, ends |-> {<<44256>>, <<50500, 49436>>, <<12596, 45796>>}]}
KnownT == KnownQ \cup {[stems |-> {Ha, <<47673>>}, nouns |-> {<<49324, 44284>>}, ends |-> {<<44256>>}]}
AE == [what : {"eomi"}, q : {<<3, 10>>}, minf : {1}, nmin : {1}, cond : {<<>>}]
AS == [what : {"stem"}, q : {<<7, 10>>}, minf : {1}, umin : {1}, hmin : {0}, ignore : {{}}]
ArgsQ == AE \cup AS
ArgsT == [what : {"eomi"}, q : {<<3, 10>>, <<1, 1>>}, minf : {1}, nmin : {1, 2}, cond : {<<>>}]
         \cup [what : {"stem"}, q : {<<1, 2>>}, minf : {1, 2}, umin : {0, 2}, hmin : {0}, ignore : {{}}]
Init == EsInit /\ src = <<>>
DoLoad == phase = "new" /\ \E n \in 1..MaxWords : \E W \in kSubset(n, Pool) : \E f \in [W -> Counts], k \in KnownSet :
            LET ws == [i \in 1..n |-> <<ListOf(W)[i], f[ListOf(W)[i]]>>]
            IN Load(RelOfWords(ws, 10, 9), k.stems, k.nouns, k.ends) /\ src' = ws
DoStart == phase = "idle" /\ args = <<>> /\ \E a \in ArgSet : Start(a) /\ UNCHANGED src
DoEomi == phase = "eomi" /\ \E r \in todo : EomiOne(r) /\ UNCHANGED src
DoStem == phase = "stem" /\ \E l \in todo : StemOne(l) /\ UNCHANGED src
DoEomiEnd == EomiEnd /\ UNCHANGED src
DoStemEnd == StemEnd /\ UNCHANGED src
Next == DoLoad \/ DoStart \/ DoEomi \/ DoEomiEnd \/ DoStem \/ DoStemEnd
Spec == Init /\ [][Next]_vars
DoubtNow == DoneE /\ Doubt(Endings(origin, stems, seen, args.q), args.q, args.minf) # {}
Emit == Done => Case([words |-> src, stems |-> ListOf(stems), nouns |-> ListOf(nouns), ends |-> ListOf(ends), args |-> args, doubt |-> DoubtNow,
                      got |-> ListOf({<<e, got[e]>> : e \in DOMAIN got})])
=============================================================================

------------------------------ MODULE MC_NounV1 ------------------------------
EXTENDS NounV1, TraceIO
CONSTANTS Pool, MaxWords, Counts, MinScores
VARIABLE src
vars == <<n1vars, src>>
Coef == (<<106>> :> 1000000) @@ (<<107>> :> 500000) @@ (<<106, 107>> :> 1000000) @@ (<<110>> :> -1000000) @@ (<<97>> :> 750000)
PoolQ == {<<97, 98>>, <<97, 98, 106>>, <<97, 98, 110>>, <<97, 98, 106, 107>>, <<97, 98, 97, 98>>, <<97, 98, 97, 98, 107>>,
          <<97, 98, 107>>, <<97, 98, 120>>, <<97, 98, 97>>}
PoolT == PoolQ \cup {<<97, 98, 97, 98, 106>>, <<98, 97, 106>>, <<98, 97, 107>>, <<97, 98, 98, 97>>, <<97, 106>>}
ScoresQ == {<<1, 2>>}
ScoresT == {<<1, 2>>, <<0, 1>>, <<3, 4>>}
Confs == [lmax : {10}, rmax : {7, 1}, minf : {0, 1}, norm : {TRUE}]
Init == N1Init /\ src = <<>>
DoMake == \E c \in Confs : Make(c, Coef) /\ UNCHANGED src
DoTrain == phase = "idle" /\ src = <<>> /\ origin = NoRel /\ args = <<>>
           /\ \E n \in 1..MaxWords : \E S \in kSubset(n, Pool) : \E f \in [S -> Counts], m \in {1, 2} :
                LET ws == ListOf(S)
                    ss == [i \in 1..Len(ws) |-> Concat([k \in 1..(2 * f[ws[i]]) |-> IF k % 2 = 1 THEN ws[i] ELSE <<32>>])]
                IN Train(ss, m) /\ src' = <<ss, m>>
DoStart == phase = "idle" /\ src # <<>> /\ args = <<>> /\ \E q \in MinScores : Start([min |-> q, words |-> DOMAIN sub]) /\ UNCHANGED src
DoPredict == phase = "predict" /\ \E w \in todo : PredictOne(w) /\ UNCHANGED src
DoShare == phase = "share" /\ \E w \in todo : ShareOne(w) /\ UNCHANGED src
DoDiscard == Discard /\ UNCHANGED src
DoFinish == Finish /\ UNCHANGED src
Next == DoMake \/ DoTrain \/ DoStart \/ DoPredict \/ DoDiscard \/ DoShare \/ DoFinish
Spec == Init /\ [][Next]_vars
Emit == Done => Case([cf |-> cf, min |-> args.min, sents |-> src[1], minf |-> src[2], sub |-> ListOf({<<w, sub[w]>> : w \in DOMAIN sub}),
                      nouns |-> ListOf({<<w, freq[w], found[w]>> : w \in DOMAIN found})])
=============================================================================

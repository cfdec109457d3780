------------------------------ MODULE MC_NounV2 ------------------------------
EXTENDS NounV2, TraceIO
CONSTANTS Pool, MaxWords, Counts, MinScores, Ends
ScoresQ == {<<3, 10>>}
ScoresT == {<<3, 10>>, <<0, 1>>, <<9, 10>>}
Ft == [pos |-> {<<106>>, <<107>>, <<106, 107>>}, neg |-> {<<110>>, <<110, 107>>}, com |-> {<<99>>}]
(* a b: letters of nouns, j k jk: particles, n nk: endings, c: both, x: unknown *)
PoolQ == {<<97, 98>>, <<97, 98, 106>>, <<97, 98, 110>>, <<97, 98, 106, 107>>, <<97, 98, 97, 98>>, <<97, 98, 97, 98, 107>>,
          <<97, 106>>, <<97, 98, 99>>, <<97, 98, 120>>, <<97, 98, 110, 107>>}
PoolT == PoolQ \cup {<<97>>, <<97, 110>>, <<98, 97, 106>>, <<97, 98, 97, 106>>, <<97, 98, 97, 98, 106, 107>>, <<97, 120>>, <<97, 98, 98, 97, 106>>}
Steps == <<"detaching_features", "ignore_features", "ignore_NJ">>
Confs == [lmax : {10}, rmax : {9}, minf : {0, 1}, maxend : Ends, compound : {TRUE}, steps : {Steps}, josa : {{}}, suffix : {{}}]
Init == NvInit
DoMake == \E c \in Confs : Make(c, Ft)
DoTrain == phase = "idle" /\ origin = NoRel /\ args = <<>>
           /\ \E n \in 1..MaxWords : \E S \in kSubset(n, Pool) : \E f \in [S -> Counts] :
                Train(RelOfWords(ListOf({<<w, f[w]>> : w \in S}), 10, 9))
DoStart == phase = "idle" /\ origin # NoRel /\ args = <<>> /\ \E q \in MinScores, mf \in {1, 2}, z \in BOOLEAN :
             Start([min |-> q, minf |-> mf, reset |-> z, rel |-> rel])
DoPredict == phase = "predict" /\ \E w \in todo : PredictOne(w)
DoCombine == phase = "predict" /\ todo = {} /\ Combine
DoPost == PostOne
DoFinish == Finish
Next == DoMake \/ DoTrain \/ DoStart \/ DoPredict \/ DoCombine \/ DoPost \/ DoFinish
Spec == Init /\ [][Next]_nvvars
Emit == SomethingFound =>
  Case([minf |-> cf.minf, maxend |-> cf.maxend, min |-> args.min, reset |-> args.reset, args_minf |-> args.minf,
        words |-> ListOf({<<w, origin[<<w, <<>>>>]>> : w \in {k[1] : k \in {k \in DOMAIN origin : k[2] = <<>>}}}),
        nouns |-> ListOf({<<w, nouns[w]>> : w \in DOMAIN nouns}), rel |-> ListOf({<<k[1], k[2], rel[k]>> : k \in DOMAIN rel})])
=============================================================================

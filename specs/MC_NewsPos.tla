------------------------------ MODULE MC_NewsPos ------------------------------
EXTENDS NewsPos, TraceIO
CONSTANTS Pool, MaxWords, Often, Knows, Rounds
VARIABLES src, n
vars == <<npvars, src, n>>
PoolQ == {<<49324, 44284>>, <<49324, 44284, 45716>>, <<49324, 44284, 47673, 44256>>, <<47673, 50612, 44032, 45716>>, <<47673, 45716>>, <<53360>>, <<45320, 45716>>, <<51096>>, <<47673, 51060>>, <<49324, 44284, 47673, 51060>>, <<45208, 47673, 44256>>, <<53356, 45796, 12619>>, <<47673, 44256, 47673, 50612>>}
PoolT == {<<49324, 44284>>, <<49324, 44284, 45716>>, <<49324, 44284, 47673, 44256>>, <<47673, 50612, 44032, 45716>>, <<47673, 45716>>, <<53360>>, <<45320, 45716>>, <<51096>>, <<47673, 51060>>, <<49324, 44284, 47673, 51060>>, <<45208, 47673, 44256>>, <<53356, 45796, 12619>>, <<47673, 44256>>, <<44256>>, <<44032>>, <<49324, 44284, 47673, 51060, 45716>>, <<50696, 49240, 44256, 44032, 45716>>, <<44032, 45716, 53360>>, <<47673, 44256, 47673, 50612>>, <<49324, 44284, 53360>>, <<50508, 44256, 45716, 45936>>, <<53356, 45796, 44032, 45716>>, <<49324, 44284, 53356, 45796>>, <<47673, 44256, 12596, 44032>>}
ChatJosas == {{<<45208>>, <<45716>>, <<45796, 44032>>, <<44032>>, <<44284>>, <<44284, 45716>>, <<44256>>, <<45796>>, <<51060>>}}
KnowA == [nouns |-> {<<49324, 44284>>, <<47673, 51060>>, <<45320>>}, advs |-> {<<51096>>}, josas |-> {<<45716>>, <<47484>>}, ends |-> {<<44256>>, <<45716>>, <<45796>>, <<50612>>, <<12596>>}, astems |-> {<<53356>>, <<50696, 49240>>}, vstems |-> {<<47673>>, <<44032>>},
          adjs |-> (<<53356, 45796>> :> {<<<<53356>>, <<45796>>>>} @@ <<50696, 49240, 44256>> :> {<<<<50696, 49240>>, <<44256>>>>}),
          verbs |-> (<<47673, 44256>> :> {<<<<47673>>, <<44256>>>>} @@ <<47673, 50612>> :> {<<<<47673>>, <<50612>>>>} @@ <<44032, 45716>> :> {<<<<44032>>, <<45716>>>>})]
KnowB == [nouns |-> {<<49324, 44284>>, <<53356, 45796>>, <<47673, 51060>>, <<49324, 44284, 47673, 51060>>}, advs |-> {<<51096>>, <<53360>>}, josas |-> {<<45716>>, <<44256>>}, ends |-> {<<44256>>, <<45716>>, <<12596>>, <<12596, 45936>>}, astems |-> {<<53356>>, <<47673>>}, vstems |-> {<<47673>>, <<44040>>, <<50508>>},
          adjs |-> (<<53356, 45796>> :> {<<<<53356>>, <<45796>>>>} @@ <<53360>> :> {<<<<53356>>, <<12596>>>>} @@ <<47673, 50612>> :> {<<<<47673>>, <<50612>>>>}),
          verbs |-> (<<47673, 44256>> :> {<<<<47673>>, <<44256>>>>} @@ <<47673, 50612>> :> {<<<<47672>>, <<50612>>>>} @@ <<45716, 45936>> :> {<<<<45720>>, <<12596, 45936>>>>} @@ <<44032, 45716>> :> {<<<<44032>>, <<45716>>>>, <<<<44040>>, <<45716>>>>})]
KnowC == [nouns |-> {<<49324, 44284>>}, advs |-> {}, josas |-> {<<45716>>}, ends |-> {<<44256>>, <<45716>>, <<12596>>, <<12619>>}, astems |-> {}, vstems |-> {<<47673>>, <<44032>>},
          adjs |-> <<>>,
          verbs |-> (<<47673, 44256>> :> {<<<<47673>>, <<44256>>>>} @@ <<44032, 45716>> :> {<<<<44032>>, <<45716>>>>} @@ <<53360>> :> {<<<<44032>>, <<12596>>>>} @@ <<53356, 45796>> :> {<<<<44032>>, <<12619>>>>})]
KnowsQ == {KnowA, KnowB}
KnowsT == {KnowA, KnowB, KnowC}
Init == NpInit /\ src = <<>> /\ n = 0
DoLearn == stage = "new" /\ \E kd \in {"news", "chat"} : \E k \in Knows : \E m \in 1..MaxWords : \E W \in kSubset(m, Pool) : \E f \in [W -> Often] :
             /\ (m = MaxWords => \A w \in W : f[w] = f[CHOOSE x \in W : TRUE])
             /\ Learn(kd, k @@ [words |-> f]) /\ src' = know' /\ n' = 0
DoBegin == n < Rounds /\ stage \in {"known", "done"} /\ (\E J \in ChatJosas : (Chat \/ J = CHOOSE x \in ChatJosas : TRUE) /\ (n = 0 \/ ~Chat \/ J = know.josas) /\ Begin(J)) /\ n' = n + 1 /\ UNCHANGED src
Rest == (Words \/ Nouns \/ Join \/ Lemma \/ One \/ Skip \/ Compound \/ End) /\ UNCHANGED <<src, n>>
Next == DoLearn \/ DoBegin \/ Rest
Spec == Init /\ [][Next]_vars
PairList(f) == ListOf({<<w, f[w]>> : w \in DOMAIN f})
LemmaList(f) == ListOf({<<w, ListOf(f[w])>> : w \in DOMAIN f})
Emit == Done => LET tagged(f) == ListOf({<<w, f[w][1], ListOf(f[w][2])>> : w \in DOMAIN f}) IN
        Case([words |-> PairList(src.words), nouns |-> ListOf(src.nouns), advs |-> ListOf(src.advs), josas |-> ListOf(src.josas), ends |-> ListOf(src.ends),
              astems |-> ListOf(src.astems), vstems |-> ListOf(src.vstems), adjs |-> LemmaList(src.adjs), verbs |-> LemmaList(src.verbs), kind |-> kind,
              rounds |-> n, given |-> ListOf(know.josas),
              out |-> [noun |-> PairList(out.noun), confused |-> PairList(out.confused), adv |-> PairList(out.adv), rest |-> PairList(out.rest),
                       adj |-> tagged(out.adj), verb |-> tagged(out.verb), ends |-> ListOf(out.ends), astems |-> ListOf(out.astems), vstems |-> ListOf(out.vstems)]])
=============================================================================

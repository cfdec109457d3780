----------------------------- MODULE MC_NewsNoun -----------------------------
EXTENDS NewsNoun, TraceIO
CONSTANTS Pool, MaxWords, Counts, ScoreLimits, Bases
VARIABLE src
vars == <<nnvars, src>>
FeatsQ == (<<51008>> :> 1000000) @@ (<<51060>> :> 1000000) @@ (<<47196>> :> 1000000) @@ (<<51012>> :> 750000) @@ (<<45796>> :> (-1000000)) @@ (<<54620>> :> 500000)
Preds == {<<44057, 51008>>, <<45796>>, <<45817, 54620>>, <<45824>>, <<46308>>, <<49324>>, <<50630>>, <<50630, 51008>>, <<51060>>, <<51080>>, <<51080, 45796>>, <<51648>>, <<54620>>}
PoolQ == {<<49324, 44284, 51008>>, <<49324, 44284, 51060>>, <<49324, 44284, 47196>>, <<45824, 54617, 51008>>, <<45824, 54617, 51060>>, <<49324, 44284, 45824, 54617>>, <<49324, 44284, 51080, 45796>>, <<49324, 44284, 51004, 47196>>, <<49324, 44284, 51004, 51008>>, <<45824, 54617, 51008, 47196>>, <<49324, 44284, 45817, 54620>>, <<45817, 54620>>, <<49324, 44284, 51008, 51060>>}
PoolT == {<<49324, 44284, 51008>>, <<49324, 44284, 51060>>, <<49324, 44284, 47196>>, <<45824, 54617, 51008>>, <<45824, 54617, 51060>>, <<49324, 44284, 45824, 54617>>, <<49324, 44284, 51080, 45796>>, <<49324, 44284, 51004, 47196>>, <<49324, 44284, 51004, 51008>>, <<45824, 54617, 51008, 47196>>, <<49324, 44284, 45817, 54620>>, <<45817, 54620>>, <<49324, 44284, 51008, 51060>>, <<45824, 54617, 49324, 44284, 49324, 44284>>, <<45824, 54617, 50630, 51060>>, <<49324, 44284, 50630>>, <<45824, 54617, 50630, 51008>>, <<49324, 44284, 51648, 47196>>, <<45824, 54617, 54620>>, <<49324, 44284, 46308, 51060>>, <<45824, 54617, 46308, 51060, 47196>>, <<45824, 54617, 51004, 47196>>, <<49324, 44284, 45824>>, <<49324, 44284>>, <<44057, 51008>>, <<44057, 51008, 51008>>, <<49324, 44284, 45824, 54617, 51008>>}
LimitsQ == {<<<<2, 5>>, <<3, 5>>>>}
LimitsT == {<<<<2, 5>>, <<3, 5>>>>, <<<<0, 1>>, <<0, 1>>>>}
BasesQ == {{}, {<<49324, 44284>>, <<45824, 54617>>, <<49324>>}}
Conf == [lmax |-> 10, rmax |-> 7, feats |-> FeatsQ, preds |-> Preds]
Init == NnInit /\ src = <<>>
DoMake == \E b \in Bases : Make(Conf, b) /\ src' = [base |-> b]
DoTrain == phase = "empty" /\ \E n \in 1..MaxWords : \E S \in kSubset(n, Pool) : \E f \in [S -> Counts] :
             /\ (n >= MaxWords - 1 => \A w \in S : f[w] = f[CHOOSE x \in S : TRUE])
             /\ LET ws == ListOf(S)
                    ss == [i \in 1..Len(ws) |-> Concat([k \in 1..(2 * f[ws[i]] - 1) |-> IF k % 2 = 1 THEN ws[i] ELSE <<32>>])]
                IN Train(ss) /\ src' = [base |-> src.base, sents |-> ss]
DoStart == phase = "idle" /\ args = <<>> /\ \E q \in ScoreLimits : \E m \in {1, 2} : Start([min |-> q[1], prop |-> q[2], minf |-> m, cands |-> <<>>]) /\ UNCHANGED src
DoFilter == FilterOne /\ UNCHANGED src
DoLook == LookAtWholes /\ UNCHANGED src
DoJoin == JoinOne /\ UNCHANGED src
DoFinish == Finish /\ UNCHANGED src
Next == DoMake \/ DoTrain \/ DoStart \/ DoFilter \/ DoLook \/ DoJoin \/ DoFinish
Spec == Init /\ [][Next]_vars
ExplainedHere == Explained(src.base)
(* taking the words one by one gives what the definition says *)
SameAtOnce == Done =>
  LET D == src.base \cup NounsOfNV(args.minf)   N == SeqRange(Scored(args))
      P == Filter(N, D, Without(Scored(args), Bad(N, D)), {})
  IN nd = Join(N, D, P, Wholes(args)) \cup P
Emit == Done => Case([base |-> ListOf(src.base), sents |-> src.sents, min |-> args.min, prop |-> args.prop, minf |-> args.minf,
                      feats |-> ListOf({<<r, cf.feats[r]>> : r \in DOMAIN cf.feats}), nouns |-> ListOf({<<w, out[w]>> : w \in DOMAIN out})])
=============================================================================

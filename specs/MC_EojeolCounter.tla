------------------------- MODULE MC_EojeolCounter -------------------------
EXTENDS EojeolCounter, TraceIO
CONSTANTS MaxSents
VARIABLES sents, first
vars == <<ecvars, sents, first>>
A == <<97>>
BB == <<98, 66>>
Sentences == {A, <<97, 32, 98, 66>>, <<98, 66, 32, 32, 97, 9, 97>>, <<99, 99, 99, 32, 98, 66>>}
Opts == [min : {1, 2}, max : {2, 3}, every : {0, 1, 2}, map : {<<>>, <<<<98, 32>>, <<66, 97>>>>}]
Init == /\ sents = <<>> /\ first = <<>> /\ opt \in Opts /\ todo = <<>> /\ seen = 0 /\ cnt = <<>>
        /\ total = 0 /\ cov = <<0, 1>> /\ phase = "build" /\ files = <<>>
AddSentence == /\ phase = "build" /\ Len(sents) < MaxSents /\ \E s \in Sentences : sents' = Append(sents, s)
               /\ UNCHANGED <<ecvars, first>>
Start == phase = "build" /\ sents # <<>> /\ StartCount(opt, sents) /\ UNCHANGED <<sents, first>>
DoCount == CountSentence /\ UNCHANGED <<sents, first>>
DoFinish == FinishCount /\ first' = cnt' /\ UNCHANGED sents
DoRemove == cov = <<0, 1>> /\ DOMAIN files = {} /\ RemoveCovered({A, <<99, 99, 99>>}) /\ UNCHANGED <<sents, first>>
DoSet == cov = <<0, 1>> /\ (\E q \in {<<1, 2>>, <<3, 2>>, <<-1, 2>>} : SetCoverage(q)) /\ UNCHANGED <<sents, first>>
DoSave == DOMAIN files = {} /\ SaveTo("f") /\ UNCHANGED <<sents, first>>
DoLoad == LoadFrom("f") /\ UNCHANGED <<sents, first>>
Next == AddSentence \/ Start \/ DoCount \/ DoFinish \/ DoRemove \/ DoSet \/ DoSave \/ DoLoad
Spec == Init /\ [][Next]_vars
InvExact == ExactCounts(sents)
Emit == (phase = "ready" /\ DOMAIN files = {}) =>
  Case([sents |-> sents, opt |-> opt, first |-> ListOf({<<w, first[w]>> : w \in DOMAIN first}),
        cnt |-> ListOf({<<w, cnt[w]>> : w \in DOMAIN cnt}), cov |-> cov, total |-> total])
=============================================================================

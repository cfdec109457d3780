------------------------------ MODULE MC_LRTag ------------------------------
EXTENDS PosTag, TraceIO
CONSTANTS MaxLen
VARIABLES td, pref
vars == <<ptvars, td, pref>>
Alphabet == {97, 98}
NounPool == {<<97, 97>>, <<97, 98>>, <<98, 97, 98>>, <<98>>}
JosaPool == {<<97>>, <<98>>, <<98, 97>>}
VerbPool == {<<98, 97>>, <<97, 97>>}
Ltags == {"Noun", "Verb", "Adjective"}
Tpl == "Noun" :> {"Josa", "Verb"}
Weights == <<30, 15, 20, 10, 10, 10, -20>>
Prefs == {<<>>, <<"Verb", <<98, 97>>>> :> 100, (<<"Noun", <<97, 98>>>> :> -60) @@ (<<"Josa", <<97>>>> :> 35)}
Init == PtInit /\ pref = <<>> /\ td = <<>>
ToksUpTo(n) == UNION {[1..k -> Alphabet] : k \in 1..n}
DoOffer == step = "idle" /\ \E ns \in SUBSET NounPool, js \in SUBSET JosaPool, vs \in SUBSET VerbPool, t \in ToksUpTo(MaxLen), p \in Prefs :
  LET d == ("Noun" :> ns) @@ ("Josa" :> js) @@ ("Verb" :> vs) IN
  td' = d /\ pref' = p /\ Offer(t, LRAll(d, Ltags, Tpl, t))
DoPick == cand # {} /\ (\E x \in cand : Pick(Weights, pref, x)) /\ UNCHANGED <<td, pref>>
DoEnd == Picked /\ UNCHANGED <<td, pref>>
Next == DoOffer \/ DoPick \/ DoEnd
Spec == Init /\ [][Next]_vars
All == LRAll(td, Ltags, Tpl, tok)
(* the machine ends where the definition says, and nothing left out could be added *)
AmongChoices == step = "done" => chosen \in GreedyResults(Weights, pref, All)
Maximal == step = "done" => \A x \in All : \E y \in chosen : x = y \/ Overlap(x, y)
(* a word left out overlaps a chosen one with at least its score *)
Justified == step = "done" => \A x \in All \ chosen : \E y \in chosen : Overlap(x, y) /\ LRScore(Weights, pref, y) >= LRScore(Weights, pref, x)
WordsKnown == \A x \in chosen : Known(td, x.l, x.lt) /\ (x.rt # NoTag => Known(td, x.r, x.rt)) /\ Len(x.l) >= 2
Emit == (step = "pick" /\ chosen = {}) =>
  Case([td |-> [g \in DOMAIN td |-> ListOf(td[g])], pref |-> ListOf({<<k[1], k[2], pref[k]>> : k \in DOMAIN pref}), tok |-> tok,
        cand |-> ListOf({<<x.b, x.m, x.e, x.lt, x.rt>> : x \in cand}),
        shows |-> ListOf({Show(Filled(tok, S)) : S \in GreedyResults(Weights, pref, cand)})])
=============================================================================

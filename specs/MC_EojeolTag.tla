---------------------------- MODULE MC_EojeolTag ----------------------------
EXTENDS PosTag, TraceIO
CONSTANTS MaxLen
VARIABLES td, best
vars == <<ptvars, td, best>>
Alphabet == {97, 98}
NounPool == {<<97>>, <<98>>, <<97, 98>>, <<98, 97, 98>>}
AdvPool == {<<97>>, <<98, 97>>}
JosaPool == {<<98>>, <<98, 97>>}
Singles == {"Noun", "Verb", "Adjective", "Adverb", "Exclamation"}
Pairs == {<<"Noun", "Verb">>, <<"Noun", "Adjective">>, <<"Noun", "Josa">>}
Weights == <<-10, -15, 20, -30, 10, -5, 10, 20>>
ToksUpTo(n) == UNION {[1..k -> Alphabet] : k \in 1..n}
Init == PtInit /\ td = <<>> /\ best = <<>>
DoOffer == step = "idle" /\ \E ns \in SUBSET NounPool, as \in SUBSET AdvPool, js \in SUBSET JosaPool, v \in BOOLEAN, t \in ToksUpTo(MaxLen) :
  LET d == ("Noun" :> ns) @@ ("Adverb" :> as) @@ ("Josa" :> js) @@ ("Verb" :> IF v THEN {<<98, 97>>, <<97, 97>>} ELSE {}) IN
  td' = d /\ Offer(t, EojeolAll(d, Singles, Pairs, t)) /\ UNCHANGED best
DoChoose == step = "pick" /\ step' = "done" /\ best' \in EojeolBest(Weights, cand) /\ UNCHANGED <<tok, cand, chosen, td>>
Next == DoOffer \/ DoChoose
Spec == Init /\ [][Next]_vars
(* a candidate tiles the eojeol; unknown only when nothing knows the eojeol as a word *)
AllTile == step = "pick" => \A c \in cand : Tiles(tok, c)
UnknownOnlyAlone == step = "pick" => \A c \in cand : (\E i \in 1..Len(c) : c[i].lt = NoTag) => Len(c) = 1 /\ \A g \in Singles : ~Known(td, tok, g)
Something == step = "pick" => cand # {}
WordsKnown == step = "pick" => \A c \in cand : \A i \in 1..Len(c) : /\ (c[i].lt # NoTag => Known(td, c[i].l, c[i].lt))
                                                                    /\ (c[i].rt # NoTag => Known(td, c[i].r, c[i].rt))
Emit == step = "pick" =>
  Case([td |-> [g \in DOMAIN td |-> ListOf(td[g])], tok |-> tok,
        cand |-> ListOf({<<[i \in 1..Len(c) |-> <<c[i].b, c[i].m, c[i].e, c[i].lt, c[i].rt>>], EojeolScore(Weights, c)>> : c \in cand}),
        shows |-> ListOf({Show(SeqRange(c)) : c \in EojeolBest(Weights, cand)})])
=============================================================================

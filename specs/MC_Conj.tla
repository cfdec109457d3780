------------------------------ MODULE MC_Conj ------------------------------
EXTENDS Conjugation, TraceIO
CONSTANTS StemInitials, StemVowels, StemFinals, EndInitials, EndVowels, EndFinals, Fronts, Tails
Stems == {f \o <<Syllable(a, v, z)>> : f \in Fronts, a \in StemInitials, v \in StemVowels, z \in StemFinals}
Special == {<<sGEU, sREU>>, <<sPU, sREU>>, <<sGU, sREU>>, <<sA, 45813>>, <<45813>>, <<sA, 44273>>, <<44273>>, <<sA, 44637>>, <<sA, 47213>>,
            <<sBEOS>>, <<sPU>>, <<sA, sPU>>, <<sO>>, <<sGA>>, <<sU>>, <<sA, sU>>, <<sHA>>, <<sJOH>>, <<sNOH>>, <<sGEU, sREOH>>, <<sEU>>, <<sA, sEU>>,
            <<sREU>>, <<sA, sO>>, <<sGEU, sHA>>}
Ends == {<<Syllable(x, y, z)>> \o t : x \in EndInitials, y \in EndVowels, z \in EndFinals, t \in Tails}
        \cup {<<c>> \o t : c \in {NN, RR, M, BB, SS, G, K}, t \in Tails}
FrontsQ == {<<>>}
TailsQ == {<<>>, <<sRA>>}
FrontsT == {<<>>, <<sA>>, <<sPU>>, <<sGU>>}
TailsT == {<<>>, <<sRA>>, <<sDA, G>>}
Init == CjInit
AskFor(s, e) == \E h \in BOOLEAN : Ask([fn |-> "conj", s |-> s, e |-> e, harmony |-> h])
DoAsk == step = "idle" /\ \E s \in Stems, e \in Ends : AskFor(s, e)
DoAskSpecial == step = "idle" /\ \E s \in Special, e \in Ends : AskFor(s, e)
DoChat == step = "idle" /\ \E s \in Special, e \in Ends \cup {<<>>} : Ask([fn |-> "conjchat", s |-> s, e |-> e, harmony |-> FALSE])
DoForms == step = "idle" /\ \E s \in Stems \cup Special : Ask([fn |-> "forms", s |-> s])
Next == DoAsk \/ DoAskSpecial \/ DoChat \/ DoForms \/ Answer
Spec == Init /\ [][Next]_cjvars
Emit == step = "done" => Case([req |-> req, out |-> ListOf(out)])
=============================================================================

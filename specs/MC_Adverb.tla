----------------------------- MODULE MC_Adverb -----------------------------
EXTENDS Adverb, TraceIO
CONSTANTS Alphabet, MaxLen, MaxStems, Sufs
VARIABLE asked
vars == <<avvars, asked>>
Pool == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
SufsDefault == {{<<HI>>}, {<<HI>>, <<44172>>}, {}, {<<HA, 44172>>}}
Init == AvInit /\ asked = FALSE
DoAsk == ~asked /\ asked' = TRUE /\ \E S \in SUBSET Pool : Cardinality(S) <= MaxStems /\ \E ss \in Sufs : Ask(S, ss)
DoDerive == (\E s \in todo : DeriveOne(s)) /\ UNCHANGED asked
Next == DoAsk \/ DoDerive
Spec == Init /\ [][Next]_vars
Emit == (asked /\ todo = {}) => Case([stems |-> ListOf(stems), sufs |-> ListOf(suffixes), adverbs |-> ListOf(adverbs)])
=============================================================================

------------------------------- MODULE Adverb -------------------------------
(* Adverbs: the first word of every line of a dictionary, and those that     *)
(* stems ending in 하 give with a suffix in its place.                       *)
EXTENDS Text
VARIABLES stems, suffixes,   \* given
          todo,              \* stems still to be looked at
          adverbs            \* found so far
avvars == <<stems, suffixes, todo, adverbs>>
X == INSTANCE Corpus WITH lines <- <<>>, opt <- <<>>, its <- <<>>
HA == 54616
HI == 55176
Base(s) == SubSeq(s, 1, Len(s) - 1)
Derivable(s) == s[Len(s)] = HA
AdverbsOfStem(s, ss) == IF Derivable(s) THEN {Base(s) \o x : x \in ss} ELSE {}
AdverbsOf(S, ss) == UNION {AdverbsOfStem(s, ss) : s \in S}
FirstWords(text) == LET ls == X!FileLines(text) IN {SplitWhite(ls[i])[1] : i \in 1..Len(ls)}

AvInit == stems = {} /\ suffixes = {} /\ todo = {} /\ adverbs = {}
Load(text) == adverbs' = adverbs \cup FirstWords(text) /\ UNCHANGED <<stems, suffixes, todo>>
Ask(S, ss) == todo = {} /\ stems' = S /\ suffixes' = ss /\ todo' = S /\ adverbs' = {}
DeriveOne(s) == s \in todo /\ todo' = todo \ {s} /\ adverbs' = adverbs \cup AdverbsOfStem(s, suffixes) /\ UNCHANGED <<stems, suffixes>>
DeriveAll(S, ss) == todo = {} /\ stems' = S /\ suffixes' = ss /\ adverbs' = AdverbsOf(S, ss) /\ UNCHANGED todo

Independent == todo = {} => adverbs = AdverbsOf(stems, suffixes)        \* in any order, each stem by itself
Sized == todo = {} => Cardinality(adverbs) = Cardinality({s \in stems : Derivable(s)}) * Cardinality(suffixes)
=============================================================================

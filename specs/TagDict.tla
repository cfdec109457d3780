------------------------------ MODULE TagDict ------------------------------
(* The tag dictionary of the template taggers: tag -> set of words.          *)
EXTENDS Text, FiniteSetsExt
VARIABLES
  td,       \* tag -> set of words
  reached,  \* length of the longest word ever held since construction (or load)
  saved,    \* file -> [td, reached]
  answer    \* what the last call answered ("refused": it raised and changed nothing)
tdvars == <<td, reached, saved, answer>>
Longest(S) == Max({0} \cup {Len(w) : w \in S})
AllWords(f) == UNION {f[g] : g \in DOMAIN f}
PutTag(f, g, S) == [k \in DOMAIN f \cup {g} |-> IF k = g THEN S ELSE f[k]]
(* a string of words stands for its words *)
WordsOf(x) == IF x.text THEN SeqRange(SplitWhite(x.words)) ELSE SeqRange(x.words)

TdNew(f) == td' = f /\ reached' = Longest(AllWords(f)) /\ answer' = "ok" /\ UNCHANGED saved
TdAdd(g, S, force) ==
  IF g \notin DOMAIN td /\ ~force
  THEN answer' = "refused" /\ UNCHANGED <<td, reached, saved>>
  ELSE /\ td' = PutTag(td, g, Get(td, g, {}) \cup S) /\ answer' = "ok"
       /\ reached' = Max2(reached, Longest(S)) /\ UNCHANGED saved
TdRemove(g, S) ==
  IF g \notin DOMAIN td THEN answer' = "refused" /\ UNCHANGED <<td, reached, saved>>
  ELSE td' = [td EXCEPT ![g] = @ \ S] /\ answer' = "ok" /\ UNCHANGED <<reached, saved>>
TdRemoveTag(g) ==
  IF g \notin DOMAIN td THEN answer' = "refused" /\ UNCHANGED <<td, reached, saved>>
  ELSE td' = [k \in DOMAIN td \ {g} |-> td[k]] /\ answer' = "ok" /\ UNCHANGED <<reached, saved>>
TdSave(f) == saved' = [k \in DOMAIN saved \cup {f} |-> IF k = f THEN [td |-> td, reached |-> reached] ELSE saved[k]]
             /\ answer' = "ok" /\ UNCHANGED <<td, reached>>
(* building a dictionary from a file that is not there is refused *)
TdLoad(f) == IF f \notin DOMAIN saved THEN answer' = "refused" /\ UNCHANGED <<td, reached, saved>>
             ELSE td' = saved[f].td /\ reached' = saved[f].reached /\ answer' = "ok" /\ UNCHANGED saved
TagsOf(w) == {g \in DOMAIN td : w \in td[g]}
IsTag(w, g) == g \in DOMAIN td /\ w \in td[g]
(* the bound no word is longer than *)
Bounded == \A w \in AllWords(td) : Len(w) <= reached
=============================================================================

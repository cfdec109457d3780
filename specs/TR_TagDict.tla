----------------------------- MODULE TR_TagDict -----------------------------
EXTENDS TagDict, TraceIO
VARIABLES t, c, on
vars == <<tdvars, t, c, on>>
E == Trace[t].events[c]
DictOf(ps) == [g \in {p[1] : p \in SeqRange(ps)} |-> UNION {SeqRange(p[2]) : p \in {q \in SeqRange(ps) : q[1] = g}}]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ td = <<>> /\ reached = 0 /\ saved = <<>> /\ answer = "ok"
Step ==
  CASE E.op = "new" -> TdNew(DictOf(E.dict))
    [] E.op = "add" -> TdAdd(E.tag, WordsOf(E), E.force)
    [] E.op = "remove" -> TdRemove(E.tag, WordsOf(E))
    [] E.op = "remove_tag" -> TdRemoveTag(E.tag)
    [] E.op = "save" -> TdSave(E.file)
    [] E.op = "load" -> TdLoad(E.file)
    [] OTHER -> answer' = "ok" /\ UNCHANGED <<td, reached, saved>>
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE IF E.answer # answer THEN "refusing the call"
  ELSE IF Len(E.shown) # Cardinality(DOMAIN td) \/ DictOf(E.shown) # td THEN "the words of the tags"
  ELSE IF \E i \in 1..Len(E.shown) : Len(E.shown[i][2]) # Cardinality(td[E.shown[i][1]]) THEN "a word twice"
  ELSE IF \E i \in 1..Len(E.tags) : SeqRange(E.tags[i][2]) # TagsOf(E.tags[i][1]) \/ Len(E.tags[i][2]) # Cardinality(TagsOf(E.tags[i][1]))
  THEN "the tags of a word"
  ELSE IF \E i \in 1..Len(E.is) : E.is[i][3] # IsTag(E.is[i][1], E.is[i][2]) THEN "whether a word has a tag"
  ELSE IF \E w \in AllWords(td) : Len(w) > E.longest THEN "the bound on the length of words"
  ELSE IF E.touched THEN "the words passed in were changed"
  ELSE ""
Next ==
  \/ ~on /\ c <= Len(Trace[t].events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<tdvars, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, [dict |-> ListOf({<<g, ListOf(td[g])>> : g \in DOMAIN td}), answer |-> answer]) /\ c' = 1000000
  \/ ~on /\ c = Len(Trace[t].events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<tdvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

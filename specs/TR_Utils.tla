------------------------------ MODULE TR_Utils ------------------------------
EXTENDS Utils, TraceIO
VARIABLES t, c, on
vars == <<uvars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ UInit
Step ==
  CASE E.op = "write" -> Write(E.p, E.text)
    [] E.op = "dirs" -> CheckDirs(E.p)
    [] E.op = "sort" -> SortFile(E.p)
    [] OTHER -> UNCHANGED uvars
FilesIn(x) == [p \in {y[1] : y \in SeqRange(x)} |-> (CHOOSE y \in SeqRange(x) : y[1] = p)[2]]
Near(x, micro) == Abs(micro * x[2] - x[1] * 1000000) <= x[2]
NearBy(a, b) == Abs(a - b) <= 5
Clause ==
  CASE E.op \in {"write", "dirs", "sort"} ->
         IF E.exc # "" THEN "the call raised"
         ELSE IF SeqRange(E.dirs) # dirs THEN "the directories"
         ELSE IF FilesIn(E.files) # files THEN "the files" ELSE ""
    [] E.op = "similar" ->
         IF E.exc # "" THEN "the call raised"
         ELSE IF E.q = 0 THEN IF E.ranks = <<>> THEN "" ELSE "an item that is not known"
         ELSE IF ~IsRanking(E.m, E.q, E.k, E.ranks) THEN "the items"
         ELSE IF \E i \in 1..Len(E.ranks) : ~Near(Cosine(E.m[E.q], E.m[E.ranks[i]]), E.sims[i]) THEN "a similarity" ELSE ""
    [] E.op = "corpus" -> IF E.exc = (IF Usable(E.o) THEN "" ELSE "ValueError") /\ (Usable(E.o) => E.answer) THEN "" ELSE "the judgement of a corpus"
    [] E.op = "svd" ->
         IF E.k >= Len(E.m[1]) THEN IF E.exc = "ValueError" THEN "" ELSE "too many components"
         ELSE IF E.exc # "" THEN "the call raised"
         ELSE IF E.shapes # <<<<Len(E.m), E.k>>, <<E.k>>, <<E.k, Len(E.m[1])>>>> THEN "the shapes"
         ELSE IF \E i \in 1..E.k : ~NearBy(E.s[i], 1000000 * SingularValues(E.m, E.k)[i]) THEN "a singular value"
         ELSE IF \E i \in 1..Len(E.m), j \in 1..Len(E.m[1]) : ~NearBy(E.p[i][j], 1000000 * LowRank(E.m, E.k)[i][j]) THEN "the product"
         ELSE IF ~E.again THEN "the same seed gives another answer" ELSE ""
    [] OTHER -> ""
Expected ==
  CASE E.op \in {"write", "dirs", "sort"} -> [dirs |-> ListOf(dirs), files |-> ListOf({<<p, files[p]>> : p \in DOMAIN files})]
    [] E.op = "similar" -> [sims |-> IF E.q = 0 THEN <<>> ELSE [i \in 1..Len(E.m) |-> Cosine(E.m[E.q], E.m[i])]]
    [] E.op = "svd" -> [s |-> SingularValues(E.m, E.k)]
    [] OTHER -> [op |-> E.op]
Next ==
  \/ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<uvars, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<uvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

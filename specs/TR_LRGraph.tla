---------------------------- MODULE TR_LRGraph ----------------------------
(* Recorded histories of LRGraph objects: each event names the call, its     *)
(* arguments, and what every graph then answered; the specification takes    *)
(* the same step and must be in the state those answers describe.            *)
EXTENDS LRGraph, TraceIO
VARIABLES t, l
vars == <<gr, files, t, l>>
Ev == Trace[t].events[l]
Init == /\ t \in 1..Len(Trace) /\ l = 1
        /\ gr = [g \in {} |-> NoRel] /\ files = [k \in {} |-> NoRel]
RelOf(triples) == MkDict([i \in 1..Len(triples) |-> <<<<triples[i][1], triples[i][2]>>, triples[i][3]>>])
Step ==
  CASE Ev.op = "new" -> New(Ev.g, RelOf(Ev.rel), Ev.lmax, Ev.rmax)
    [] Ev.op = "new_sents" -> NewFromSents(Ev.g, Ev.sents, Ev.lmax, Ev.rmax)
    [] Ev.op = "new_words" ->
         LET ws == SelectSeq(Ev.words, LAMBDA w : ~(Ev.skip1 /\ Len(w[1]) = 1))
         IN New(Ev.g, RelOfWords(ws, Ev.lmax, Ev.rmax), Ev.lmax, Ev.rmax)
    [] Ev.op = "add_pair" -> AddPair(Ev.g, Ev.l, Ev.r, Ev.n)
    [] Ev.op = "add_eojeol" -> AddEojeol(Ev.g, Ev.w, Ev.n)
    [] Ev.op = "remove_pair" -> RemovePair(Ev.g, Ev.l, Ev.r, Ev.n)
    [] Ev.op = "remove_eojeol" -> RemoveEojeol(Ev.g, Ev.w, Ev.n)
    [] Ev.op = "reset" -> Reset(Ev.g)
    [] Ev.op = "freeze" -> Freeze(Ev.g)
    [] Ev.op = "copy" -> CopyOrigin(Ev.g, Ev.h)
    [] Ev.op = "save" -> Save(Ev.g, Ev.f)
    [] Ev.op = "load" -> Load(Ev.g, Ev.f)
    [] OTHER -> Query
(* the answer of a query *)
Answer ==
  CASE Ev.op = "get_r" -> IF IsTop(Ev.ans, RDict(Ev.g, Ev.l), Ev.k) THEN "" ELSE "get_r"
    [] Ev.op = "get_l" -> IF IsTop(Ev.ans, LDict(Ev.g, Ev.r), Ev.k) THEN "" ELSE "get_l"
    [] Ev.op = "counter" ->
         IF IsCounter(Ev.ans, IF Ev.reset THEN gr[Ev.g].origin ELSE gr[Ev.g].lr) THEN ""
         ELSE "to_EojeolCounter"
    [] Ev.op = "counter_sum" -> ""
    [] OTHER -> ""
(* views: for every graph, what get_r / get_l answered for every string of the
   universe that has an answer: <<string, answers>> *)
RECURSIVE Flat(_, _)
Flat(v, i) == IF i > Len(v) THEN {}
              ELSE {<<v[i][1], v[i][2][j][1], v[i][2][j][2]>> : j \in 1..Len(v[i][2])} \cup Flat(v, i + 1)
Size(v) == SumSeq([i \in 1..Len(v) |-> Len(v[i][2])])
Sorted(v) == \A i \in 1..Len(v) : \A j \in 1..(Len(v[i][2]) - 1) : v[i][2][j][2] >= v[i][2][j + 1][2]
View(x) ==
  IF Flat(x.lr, 1) # Triples(gr'[x.g].lr) \/ Size(x.lr) # Cardinality(DOMAIN gr'[x.g].lr)
  THEN "view from the left"
  ELSE IF Flat(x.rl, 1) # Triples(gr'[x.g].rl) \/ Size(x.rl) # Cardinality(DOMAIN gr'[x.g].rl)
  THEN "view from the right"
  ELSE IF ~Sorted(x.lr) \/ ~Sorted(x.rl) THEN "order of the answers" ELSE ""
Clause ==
  IF Ev.exc # "" THEN "the call raised or did not return"
  ELSE IF Answer # "" THEN Answer
  ELSE LET bad == {i \in 1..Len(Ev.views) : View(Ev.views[i]) # ""}
       IN IF bad = {} THEN "" ELSE View(Ev.views[CHOOSE i \in bad : TRUE])
Next ==
  \/ /\ l <= Len(Trace[t].events) /\ t' = t
     /\ Step
     /\ IF Clause = "" THEN l' = l + 1
        ELSE /\ RejectAt(t, l, Ev.op \o ": " \o Clause,
                         IF Ev.g \in DOMAIN gr' THEN Triples(gr'[Ev.g].lr) ELSE {})
             /\ l' = Len(Trace[t].events) + 2
  \/ /\ l = Len(Trace[t].events) + 1 /\ Accept(t) /\ l' = l + 2 /\ UNCHANGED <<t, gr, files>>
Spec == Init /\ [][Next]_vars
=============================================================================

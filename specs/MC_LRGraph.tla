---------------------------- MODULE MC_LRGraph ----------------------------
(* All histories over two graphs, small words and counts; every call adds to *)
(* hist the call and the relation of the graph it touched.                   *)
EXTENDS LRGraph, TraceIO
CONSTANTS Depth
VARIABLE hist
vars == <<gr, files, hist>>
Graphs == {1, 2}
Words == {<<97>>, <<97, 98>>, <<98, 97, 97>>}
Pairs == {<<<<97>>, <<98>>>>, <<<<97>>, <<>>>>, <<<<98>>, <<97>>>>}
Counts == {1, 2}
Start == RelOfWords(<<<<<<97, 98>>, 2>>, <<<<97>>, 1>>>>, 10, 9)
RelSeq(f) == ListOf({<<k[1], k[2], f[k]>> : k \in DOMAIN f})
H(name, g, a) == hist' = Append(hist, [op |-> name, g |-> g, a |-> a,
                   lr |-> [x \in 1..2 |-> RelSeq(gr'[x].lr)]])
Init == /\ gr = [g \in Graphs |-> IF g = 1 THEN Graph(Start, 10, 9) ELSE Graph(NoRel, 2, 1)]
        /\ files = [k \in {} |-> NoRel] /\ hist = <<>>
NoHist == <<gr, files, Len(hist)>>
More == Len(hist) < Depth
DoAddPair == More /\ \E g \in Graphs, p \in Pairs, c \in Counts :
               AddPair(g, p[1], p[2], c) /\ H("add_pair", g, <<p[1], p[2], c>>)
DoAddEojeol == More /\ \E g \in Graphs, w \in Words, c \in Counts :
               AddEojeol(g, w, c) /\ H("add_eojeol", g, <<w, c>>)
DoRemovePair == More /\ \E g \in Graphs, p \in Pairs, c \in Counts :
               RemovePair(g, p[1], p[2], c) /\ H("remove_pair", g, <<p[1], p[2], c>>)
DoRemoveEojeol == More /\ \E g \in Graphs, w \in Words, c \in Counts :
               RemoveEojeol(g, w, c) /\ H("remove_eojeol", g, <<w, c>>)
DoReset == More /\ \E g \in Graphs : Reset(g) /\ H("reset", g, <<>>)
DoFreeze == More /\ \E g \in Graphs : Freeze(g) /\ H("freeze", g, <<>>)
DoCopy == More /\ \E g, h \in Graphs : g # h /\ CopyOrigin(g, h) /\ H("copy", g, <<h>>)
DoSave == More /\ \E g \in Graphs : Save(g, "f") /\ H("save", g, <<>>)
DoLoad == More /\ \E g \in Graphs : Load(g, "f") /\ H("load", g, <<>>)
Next == DoAddPair \/ DoAddEojeol \/ DoRemovePair \/ DoRemoveEojeol \/ DoReset \/ DoFreeze
        \/ DoCopy \/ DoSave \/ DoLoad
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = Depth => Case([hist |-> hist])
ActiveFrozen == [][\A g \in Graphs : (gr[g].frozen /\ hist'[Len(hist')].op = "reset"
                      /\ hist'[Len(hist')].g = g) => gr'[g].lr = gr[g].lr]_vars
(* nothing done to one graph shows in the other *)
Independent == [][\A g \in Graphs : LET h == hist'[Len(hist')] IN
                    (h.op # "copy" /\ h.g # g) => gr'[g] = gr[g]]_vars
=============================================================================

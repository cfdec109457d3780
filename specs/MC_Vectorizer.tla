--------------------------- MODULE MC_Vectorizer ---------------------------
EXTENDS Vectorizer, TraceIO
CONSTANTS MaxDocs, MaxLen
VARIABLES docs, opts, step
vars == <<vzvars, docs, opts, step>>
Toks == {<<97>>, <<98>>, <<99>>}
DocSet == UNION {[1..n -> Toks] : n \in 0..MaxLen}
Opts == [mintf : {0, 2}, maxtf : {2, 99}, mindf : {0, 9}, maxdf : {8, 16}]
Init == vocab = <<>> /\ disk = <<>> /\ docs = <<>> /\ opts = <<>> /\ step = 0
Orders(S) == {f \in [1..Cardinality(S) -> S] : SeqRange(f) = S}
DoFit == step = 0 /\ \E n \in 1..MaxDocs : \E ds \in [1..n -> DocSet], o \in Opts :
           \E order \in Orders(Chosen(ds, o)) :
              Fit("v", ds, o, order) /\ docs' = ds /\ opts' = o /\ step' = 1
DoSave == step = 1 /\ Save("v", "f") /\ step' = 2 /\ UNCHANGED <<docs, opts>>
DoNew == step = 2 /\ New("w") /\ step' = 3 /\ UNCHANGED <<docs, opts>>
DoLoad == step = 3 /\ Load("w", "f") /\ step' = 4 /\ UNCHANGED <<docs, opts>>
Next == DoFit \/ DoSave \/ DoNew \/ DoLoad
Spec == Init /\ [][Next]_vars
InvInvert == IndexesInvert
InvRound == step = 1 => \A i \in 1..Len(docs) : RoundTrip("v", docs[i])
InvColumns == step = 1 => ColumnSums("v", docs)
InvSame == step = 4 => vocab["w"] = vocab["v"]
Emit == step = 1 => Case([docs |-> docs, o |-> opts, vocab |-> ListOf(SeqRange(vocab["v"])),
  freq |-> [i \in 1..Cardinality(SeqRange(vocab["v"])) |-> TermFreq(docs, ListOf(SeqRange(vocab["v"]))[i])],
  cells |-> ListOf({<<x[1], vocab["v"][x[2] + 1], x[3]>> : x \in Matrix(vocab["v"], docs)})])
=============================================================================

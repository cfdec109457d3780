--------------------------- MODULE TR_Vectorizer ---------------------------
EXTENDS Vectorizer, TraceIO
VARIABLES t, c
vars == <<vzvars, t, c>>
R == Trace[t]
E == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ vocab = <<>> /\ disk = <<>>
Old == vocab[E.v]
Tk(x) == Tokens(E.tok, x)
Ds == Docs(E.tok, E.texts)
(* the part of the observation that shows the vocabulary held afterwards *)
Now ==
  IF E.op \in {"fit", "fit_transform", "fit_to_file"} THEN E.vocab
  ELSE IF E.op = "new" THEN <<>> ELSE IF E.op = "load" THEN disk[E.f] ELSE Old
(* shares of the documents that the constructor takes *)
Legal(o) == o.mindf >= 0 /\ o.mindf < 16 /\ o.maxdf > 0 /\ o.maxdf <= 16
Clause ==
  IF E.op = "refused" THEN IF E.raised = ~Legal(E.o) THEN "" ELSE "arguments out of range"
  ELSE IF E.exc # "" THEN "the call raised"
  ELSE IF E.op \in {"fit", "fit_transform", "fit_to_file"} /\ ~Admissible(E.vocab, Ds, E.o) THEN "vocabulary"
  ELSE IF E.vocab # Now THEN "vocabulary held"
  ELSE IF E.size # Len(Now) \/ SeqRange(E.index) # {<<Now[i], i - 1>> : i \in 1..Len(Now)} THEN "size or index table"
  ELSE CASE E.op \in {"transform", "fit_transform", "to_file", "fit_to_file"} ->
              IF E.shape # <<Len(Ds), Len(Now)>> THEN "matrix shape"
              ELSE IF SeqRange(E.cells) # Matrix(Now, Ds) \/ Len(E.cells) # Cardinality(Matrix(Now, Ds)) THEN "matrix" ELSE ""
         [] E.op = "encode_list" -> IF E.seq = EncodeList(Now, Tk(E.texts[1])) THEN "" ELSE "encoded list"
         [] E.op = "decode_list" -> IF E.words = DecodeList(Now, E.seq) THEN "" ELSE "decoded list"
         [] E.op = "encode_bow" ->
              IF SeqRange(E.bow) = Bow(Now, Tk(E.texts[1])) /\ Len(E.bow) = Cardinality(Bow(Now, Tk(E.texts[1]))) THEN "" ELSE "bag"
         [] E.op = "decode_bow" -> IF SeqRange(E.wbow) = UnBow(Now, SeqRange(E.bow)) THEN "" ELSE "decoded bag"
         [] OTHER -> ""
Step ==
  CASE E.op = "new" -> New(E.v)
    [] E.op \in {"fit", "fit_transform", "fit_to_file"} -> Fit(E.v, Ds, E.o, E.vocab)
    [] E.op = "save" -> Save(E.v, E.f)
    [] E.op = "load" -> Load(E.v, E.f)
    [] OTHER -> UNCHANGED vzvars
Next ==
  \/ /\ c <= Len(R.calls) /\ UNCHANGED t
     /\ IF Clause = "" THEN Step /\ c' = c + 1
        ELSE RejectAt(t, c, Clause, IF E.op = "refused" THEN "" ELSE ToString(<<Now, IF E.texts # <<>> THEN Matrix(Now, Ds) ELSE {}>>))
             /\ c' = 1000000 /\ UNCHANGED vzvars
  \/ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<vzvars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

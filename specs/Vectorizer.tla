----------------------------- MODULE Vectorizer -----------------------------
(* Term-frequency vectorizers: a vocabulary chosen from the documents by     *)
(* term and document frequency, and documents encoded on it.                 *)
EXTENDS Text, FiniteSetsExt

VARIABLES vocab,   \* vectorizer -> sequence of terms (position = index + 1)
          disk     \* file -> sequence of terms
vzvars == <<vocab, disk>>

(* a tokenizer splits at white space or takes every character that is none *)
Tokens(how, text) ==
  IF how = "chars" THEN LET s == NonWhite(text) IN [i \in 1..Len(s) |-> <<s[i]>>]
  ELSE SplitWhite(text)
Times(tokens, w) == Cardinality({i \in 1..Len(tokens) : tokens[i] = w})
Docs(how, texts) == [i \in 1..Len(texts) |-> Tokens(how, texts[i])]
TermFreq(ds, w) == SumSeq([i \in 1..Len(ds) |-> Times(ds[i], w)])
DocFreq(ds, w) == Cardinality({i \in 1..Len(ds) : w \in SeqRange(ds[i])})
Terms(ds) == UNION {SeqRange(ds[i]) : i \in 1..Len(ds)}
(* o: minimum and maximum term frequency; document frequency limits are
   shares of the number of documents in sixteenths, rounded down *)
Share(n, k) == (n * k) \div 16
Chosen(ds, o) ==
  {w \in Terms(ds) : /\ o.mintf <= TermFreq(ds, w) /\ TermFreq(ds, w) <= o.maxtf
                     /\ Share(Len(ds), o.mindf) <= DocFreq(ds, w) /\ DocFreq(ds, w) <= Share(Len(ds), o.maxdf)}
(* an admissible vocabulary: the chosen terms, most frequent first *)
Admissible(v, ds, o) ==
  /\ SeqRange(v) = Chosen(ds, o) /\ Len(v) = Cardinality(SeqRange(v))
  /\ \A i \in 1..(Len(v) - 1) : TermFreq(ds, v[i]) >= TermFreq(ds, v[i + 1])

Index(v, w) == (CHOOSE i \in 1..Len(v) : v[i] = w) - 1
Known(v, tokens) == SelectSeq(tokens, LAMBDA w : w \in SeqRange(v))
EncodeList(v, tokens) == LET k == Known(v, tokens) IN [i \in 1..Len(k) |-> Index(v, k[i])]
DecodeList(v, idx) == LET k == SelectSeq(idx, LAMBDA i : 0 <= i /\ i < Len(v)) IN [i \in 1..Len(k) |-> v[k[i] + 1]]
(* bags as sets of <<item, count>> *)
Bow(v, tokens) == {<<Index(v, w), Times(tokens, w)>> : w \in SeqRange(Known(v, tokens))}
UnBow(v, bow) == {<<v[p[1] + 1], p[2]>> : p \in {q \in bow : 0 <= q[1] /\ q[1] < Len(v)}}
(* matrix entries <<row, column, count>> *)
Matrix(v, ds) == UNION {{<<i - 1, p[1], p[2]>> : p \in Bow(v, ds[i])} : i \in 1..Len(ds)}

Set(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
New(v) == vocab' = Set(vocab, v, <<>>) /\ UNCHANGED disk
Fit(v, ds, o, order) == Admissible(order, ds, o) /\ vocab' = Set(vocab, v, order) /\ UNCHANGED disk
Save(v, f) == disk' = Set(disk, f, vocab[v]) /\ UNCHANGED vocab
Load(v, f) == f \in DOMAIN disk /\ vocab' = Set(vocab, v, disk[f]) /\ UNCHANGED disk

-----------------------------------------------------------------------------
Distinct(v) == Len(v) = Cardinality(SeqRange(v))
IndexesInvert == \A v \in DOMAIN vocab : Distinct(vocab[v]) /\
  \A w \in SeqRange(vocab[v]) : vocab[v][Index(vocab[v], w) + 1] = w
(* encoding and decoding a document returns its known tokens *)
RoundTrip(v, tokens) ==
  /\ DecodeList(vocab[v], EncodeList(vocab[v], tokens)) = Known(vocab[v], tokens)
  /\ UnBow(vocab[v], Bow(vocab[v], tokens)) = {<<w, Times(tokens, w)>> : w \in SeqRange(Known(vocab[v], tokens))}
(* column sums of the fitted corpus are the term frequencies *)
ColumnSums(v, ds) ==
  \A w \in SeqRange(vocab[v]) :
    SumSeq([i \in 1..Len(ds) |-> Times(ds[i], w)]) =
    FoldSet(LAMBDA x, acc : acc + x[3], 0, {x \in Matrix(vocab[v], ds) : x[2] = Index(vocab[v], w)})
=============================================================================

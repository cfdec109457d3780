---------------------------- MODULE MC_Convert ----------------------------
(* Eojeol count tables, turned into L-R graphs and back.                     *)
EXTENDS LRGraph, TraceIO
CONSTANTS Chars, MaxWord, MaxCount
VARIABLES words, opt, back, phase
vars == <<gr, files, words, opt, back, phase>>
Texts == UNION {[1..n -> Chars] : n \in 1..MaxWord}
Init == /\ gr = [g \in {} |-> NoRel] /\ files = <<>> /\ words = <<>>
        /\ opt \in [lmax : {2, 3, 10}, rmax : {1, 2, 9}, skip1 : BOOLEAN]
        /\ back = NoRel /\ phase = "count"
Known(w) == \E i \in 1..Len(words) : words[i][1] = w
Count == /\ phase = "count" /\ Len(words) < 2
         /\ \E w \in Texts, c \in 1..MaxCount :
              /\ ~Known(w)
              /\ IF words = <<>> THEN TRUE ELSE ~LexLess(w, words[Len(words)][1])
              /\ words' = Append(words, <<w, c>>)
         /\ UNCHANGED <<gr, files, opt, back, phase>>
Used == SelectSeq(words, LAMBDA w : ~(opt.skip1 /\ Len(w[1]) = 1))
ToGraph == /\ phase = "count" /\ phase' = "graph"
           /\ New(1, RelOfWords(Used, opt.lmax, opt.rmax), opt.lmax, opt.rmax)
           /\ UNCHANGED <<words, opt, back>>
ToCounter == /\ phase = "graph" /\ phase' = "back"
             /\ back' = LET rel == gr[1].lr
                            W == {k[1] \o k[2] : k \in DOMAIN rel}
                        IN [w \in W |-> LET k == CHOOSE k \in DOMAIN rel : k[1] \o k[2] = w IN rel[k]]
             /\ UNCHANGED <<gr, files, words, opt>>
Next == Count \/ ToGraph \/ ToCounter
Spec == Init /\ [][Next]_vars
Fits(w) == Allowed(w, opt.lmax, opt.rmax) # {}
RoundTrip == phase = "back" =>
  back = MkDict(SelectSeq(Used, LAMBDA w : Fits(w[1])))
(* every split of a word has the word's own count *)
SplitCounts == phase # "count" =>
  \A k \in DOMAIN gr[1].lr : \E i \in 1..Len(Used) : Used[i] = <<k[1] \o k[2], gr[1].lr[k]>>
Emit == phase = "back" =>
  Case([words |-> words, opt |-> opt, lr |-> ListOf(Triples(gr[1].lr)),
        back |-> ListOf({<<w, back[w]>> : w \in DOMAIN back})])
=============================================================================

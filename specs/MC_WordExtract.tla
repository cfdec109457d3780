--------------------------- MODULE MC_WordExtract ---------------------------
EXTENDS WordExtract, TraceIO
CONSTANTS MaxWords, MaxLen, Rounds
VARIABLES corpus, rounds
vars == <<wxvars, corpus, rounds>>
A == {97, 98}
WordsOf(n) == UNION {[1..k -> A] : k \in 1..n}
Sents(m) == UNION {[1..k -> WordsOf(MaxLen)] : k \in 0..m}
Fixed == <<<<<<97, 98>>, <<97, 98, 97>>>>, <<<<97, 98, 98>>, <<97>>>>>>
Init == WxInit /\ corpus = <<>> /\ rounds = 0
DoCreate == rounds = 0 /\ corpus = <<>> /\ phase = "ready" /\ cf = Fresh
  /\ \E l \in 1..2, r \in 1..2, m \in 1..2 : Create([Fresh EXCEPT !.L = l, !.R = r, !.min = m]) /\ UNCHANGED <<corpus, rounds>>
DoTrain == cf # Fresh /\ phase = "ready" /\ rounds < Rounds
  /\ \E a \in Sents(IF rounds = 0 THEN MaxWords ELSE 1) : \E p \in 0..1, again \in BOOLEAN :
        /\ (rounds = 0 => again)
        /\ StartTrain(IF rounds = 0 THEN <<a>> \o Fixed ELSE <<a>>, p, again)
        /\ corpus' = Append(corpus, [ss |-> IF rounds = 0 THEN <<a>> \o Fixed ELSE <<a>>, every |-> p, again |-> again])
        /\ rounds' = rounds + 1
DoAdd == AddSentence /\ UNCHANGED <<corpus, rounds>>
DoEnd == EndTrain /\ UNCHANGED <<corpus, rounds>>
Next == DoCreate \/ DoTrain \/ DoAdd \/ DoEnd
Spec == Init /\ [][Next]_vars
Tab(f) == ListOf({<<k, f[k]>> : k \in DOMAIN f})
(* one training without pruning: the definition of the counts *)
AllWords == LET s == Concat(corpus[1].ss) IN {i \in 1..Len(s) : Len(s[i]) > 1}
TextWord(i) == Concat(corpus[1].ss)[i]
IsDefinition == (phase = "ready" /\ rounds = 1 /\ corpus[1].every = 0) =>
  /\ \A w \in DOMAIN left : left[w] = Cardinality({i \in AllWords : StartsWith(TextWord(i), w)})
  /\ \A w \in DOMAIN right : right[w] = Cardinality({i \in AllWords : EndsWith(TextWord(i), w) /\ Len(TextWord(i)) > Len(w)})
Emit == (phase = "ready" /\ rounds > 0) =>
  Case([cf |-> cf, corpus |-> corpus, left |-> Tab(left), right |-> Tab(right),
        scores |-> ListOf({<<w, CohesionL(w), CohesionR(w), Variety(AllLeft(w)), Variety(AllRight(w)),
                             Entropy(AllLeft(w)), Entropy(AllRight(w))>> : w \in Words})])
=============================================================================

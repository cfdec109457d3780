------------------------------ MODULE MC_Bigram ------------------------------
EXTENDS Bigram, TraceIO
CONSTANTS MaxLen, Second
Toks == {<<97>>, <<98>>, <<99>>}
Seqs(n) == UNION {[1..k -> Toks] : k \in 0..n}
Init == BgInit
DoStart == phase = "idle" /\ \E a \in Seqs(MaxLen), b \in Seqs(Second) : \E m \in 1..2, e \in 0..2 :
             StartTrain([min |-> m, every |-> e], <<a, b, a>>)
Next == DoStart \/ CountSentence \/ EndTrain
Spec == Init /\ [][Next]_bgvars
Scores(mode) == ListOf({<<p[1], p[2], pairs[p], Score(p, mode)>> : p \in DOMAIN pairs})
Emit == phase = "done" =>
  Case([sents |-> sents, opt |-> opt, f |-> Scores("frequency"), p |-> Scores("pmi"), m |-> Scores("mikolov")])
=============================================================================

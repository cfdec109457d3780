--------------------------- MODULE MC_WordContext ---------------------------
EXTENDS WordContext, TraceIO
CONSTANTS MaxLen, MaxSecond
Toks == {<<97>>, <<98>>, <<99>>}
Seqs(n) == UNION {[1..k -> Toks] : k \in 0..n}
Init == WcInit
DoBegin == phase = "idle" /\ \E a \in Seqs(MaxLen), b \in Seqs(MaxSecond) : \E w \in 1..3, m \in 1..2, d \in BOOLEAN :
             Begin(<<a, b>>, w, m, d)
Next == DoBegin \/ SkipBlank \/ CountWord \/ StartScan \/ ScanWord \/ End
Spec == Init /\ [][Next]_wcvars
Emit == phase = "done" =>
  Case([sents |-> sents, win |-> win, mintf |-> mintf, dyn |-> dyn,
        freq |-> ListOf({<<w, freq[w]>> : w \in {x \in DOMAIN freq : In(x)}}),
        cells |-> ListOf({<<k[1], k[2], cells[k]>> : k \in DOMAIN cells})])
=============================================================================

------------------------------- MODULE MC_Pmi -------------------------------
EXTENDS Pmi, TraceIO
CONSTANTS MaxCount, Cols
Init == PmInit
Squares == {n \in 0..100 : \E r \in 0..10 : r * r = n}
DoBegin ==
  /\ stage = "idle"
  /\ \E a \in [1..Cols -> 0..MaxCount], b \in [1..Cols -> 0..MaxCount] : \E h \in BOOLEAN, al \in {0, 4}, l \in {<<1, 1>>, <<2, 1>>, <<1, 3>>} :
        LET m == <<a, b>> IN
          /\ Total(m) > 0
          /\ h => \A j \in 1..Cols : ColSum(m, j) \in Squares
          /\ Begin(m, <<>>, h, 0, al, l)
DoGiven ==
  /\ stage = "idle"
  /\ \E a \in [1..Cols -> 0..1], b \in [1..Cols -> 0..2], g \in [1..Cols -> {0, 1, 4}] : \E h \in BOOLEAN, al \in {0, 4} :
        Total(<<a, b>>) > 0 /\ SumSeq(g) > 0 /\ Begin(<<a, b>>, g, h, 8, al, <<1, 1>>)
Next == DoBegin \/ DoGiven \/ DoRow \/ Finish
Spec == Init /\ [][Next]_pmvars
Emit == stage = "done" => Case([m |-> mat, g |-> giv, half |-> half, whole |-> whole, alpha |-> alpha, least |-> least,
                                kept |-> ListOf(kept), w |-> Wts, W |-> Whl])
=============================================================================

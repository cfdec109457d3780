------------------------------- MODULE Bigram -------------------------------
(* Adjacent word pairs: counted sentence by sentence (rare pairs may be      *)
(* pruned at checkpoints), then scored and filtered.  Scores are fractions   *)
(* <<numerator, denominator>>; for PMI the fraction is its exponential.      *)
EXTENDS Text, FiniteSetsExt

VARIABLES opt,     \* [min |-> minimum frequency, every |-> checkpoint period]
          sents,   \* token sequences
          at,      \* sentence reached
          pairs,   \* <<word, word>> -> count so far
          uni,     \* word -> count (after training)
          phase    \* "idle", "train", "done"
bgvars == <<opt, sents, at, pairs, uni, phase>>
BgInit == opt = [min |-> 5, every |-> 0] /\ sents = <<>> /\ at = 1 /\ pairs = <<>> /\ uni = <<>> /\ phase = "idle"

Bump(f, k, c) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + c] ELSE f @@ (k :> c)
AtLeast(f, m) == [k \in {k \in DOMAIN f : f[k] >= m} |-> f[k]]
RECURSIVE AddPairs(_, _, _)
AddPairs(f, s, i) == IF i >= Len(s) THEN f ELSE AddPairs(Bump(f, <<s[i], s[i + 1]>>, 1), s, i + 1)
(* how often w stands at one of the two places of a pair *)
UniOf(f) ==
  [w \in UNION {{p[1], p[2]} : p \in DOMAIN f} |->
     FoldSet(LAMBDA p, acc : acc + (IF p[1] = w THEN f[p] ELSE 0) + (IF p[2] = w THEN f[p] ELSE 0), 0, DOMAIN f)]
SumOf(f) == FoldSet(LAMBDA p, acc : acc + f[p], 0, DOMAIN f)

StartTrain(o, ss) ==
  /\ phase # "train" /\ opt' = o /\ sents' = ss /\ at' = 1 /\ pairs' = <<>> /\ uni' = <<>> /\ phase' = "train"
(* before the sentence at a checkpoint, rare pairs are forgotten *)
DueCheck == opt.every > 0 /\ (at - 1) % opt.every = 0
CountSentence ==
  /\ phase = "train" /\ at <= Len(sents)
  /\ pairs' = AddPairs(IF DueCheck THEN AtLeast(pairs, opt.min) ELSE pairs, sents[at], 1)
  /\ at' = at + 1 /\ UNCHANGED <<opt, sents, uni, phase>>
EndTrain ==
  /\ phase = "train" /\ at > Len(sents)
  /\ pairs' = AtLeast(pairs, opt.min) /\ uni' = UniOf(pairs') /\ phase' = "done"
  /\ UNCHANGED <<opt, sents, at>>

-----------------------------------------------------------------------------
Less(p, q) == p[1] * q[2] < q[1] * p[2]
Same(p, q) == p[1] * q[2] = q[1] * p[2]
Score(p, mode) ==
  CASE mode = "frequency" -> <<pairs[p], 1>>
    [] mode = "pmi" -> <<2 * SumOf(pairs) * pairs[p], uni[p[1]] * uni[p[2]]>>
    [] mode = "mikolov" -> <<pairs[p] - opt.min, uni[p[1]] * uni[p[2]]>>
Passing(mode, low) == {p \in DOMAIN pairs : ~Less(Score(p, mode), low)}
(* a legal answer: pairs over the threshold, topk of them when topk > 0, none
   better left out; a score equal to the threshold of a logarithm may go
   either way (rounding) *)
Legal(got, mode, low, topk) ==
  LET may == Passing(mode, low)
      must == IF mode = "pmi" THEN {p \in may : ~Same(Score(p, mode), low)} ELSE may
  IN /\ got \subseteq may
     /\ IF topk <= 0 THEN must \subseteq got
        ELSE /\ Cardinality(got) <= topk
             /\ Cardinality(got) >= Min2(topk, Cardinality(must))
             /\ \A p \in must \ got, q \in got : ~Less(Score(q, mode), Score(p, mode))

(* without pruning the counts are the occurrences in the corpus *)
Occurrences(p) == SumSeq([i \in 1..Len(sents) |->
   Cardinality({j \in 1..(Len(sents[i]) - 1) : sents[i][j] = p[1] /\ sents[i][j + 1] = p[2]})])
ExactWithoutPruning == (phase = "done" /\ opt.every = 0) =>
  /\ \A p \in DOMAIN pairs : pairs[p] = Occurrences(p)
  /\ \A i \in 1..Len(sents) : \A j \in 1..(Len(sents[i]) - 1) :
        Occurrences(<<sents[i][j], sents[i][j + 1]>>) >= opt.min => <<sents[i][j], sents[i][j + 1]>> \in DOMAIN pairs
NeverTooMany == phase = "done" => \A p \in DOMAIN pairs : pairs[p] >= opt.min /\ pairs[p] <= Occurrences(p)
TwoPlaces == phase = "done" => SumOf(uni) = 2 * SumOf(pairs)
UniCovers == phase = "done" => \A p \in DOMAIN pairs : uni[p[1]] >= pairs[p] /\ uni[p[2]] >= pairs[p]
BgStep == CountSentence \/ EndTrain
=============================================================================

----------------------------- MODULE GreedySeg -----------------------------
(* Greedy best-first segmentation of a word w on the score table d (words    *)
(* without a score have score s), candidates of 2..m characters.             *)
EXTENDS Text, FiniteSetsExt
TokenIn(d, s, w, b, e) == LET x == Slice(w, b, e) IN <<x, b, e, Get(d, x, s), e - b>>
(* candidate spans <<begin, end, score>> *)
CandidatesIn(d, m, s, w) ==
  UNION {{<<b, b + r, Get(d, Slice(w, b, b + r), s)>> : r \in 2..Min2(m, Len(w) - b)}
         : b \in 0..(Len(w) - 2)}
(* span x is preferred to span y *)
Preferred(x, y) ==
  \/ x[3] > y[3]
  \/ x[3] = y[3] /\ x[2] - x[1] > y[2] - y[1]
  \/ x[3] = y[3] /\ x[2] - x[1] = y[2] - y[1] /\ x[1] < y[1]
BestSpan(S) ==
  LET one == CHOOSE x \in S : TRUE
      pick(x, acc) == IF Preferred(x, acc) THEN x ELSE acc
  IN FoldSet(pick, one, S)
Overlap(x, y) == x[1] < y[2] /\ y[1] < x[2]
(* the picked spans in text order, and the gaps they leave *)
RECURSIVE CoverIn(_, _, _, _, _)
CoverIn(d, s, w, S, from) ==
  IF S = {} THEN IF from < Len(w) THEN <<TokenIn(d, s, w, from, Len(w))>> ELSE <<>>
  ELSE LET f == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
       IN (IF f[1] > from THEN <<TokenIn(d, s, w, from, f[1])>> ELSE <<>>)
          \o <<TokenIn(d, s, w, f[1], f[2])>> \o CoverIn(d, s, w, S \ {f}, f[2])
RECURSIVE GreedyPicks(_)
GreedyPicks(pool) ==
  IF pool = {} THEN {}
  ELSE LET x == BestSpan(pool) IN {x} \cup GreedyPicks({y \in pool : ~Overlap(x, y)})
Segment(d, m, s, w) ==
  IF Len(w) <= 2 THEN <<TokenIn(d, s, w, 0, Len(w))>>
  ELSE CoverIn(d, s, w, GreedyPicks(CandidatesIn(d, m, s, w)), 0)
=============================================================================

------------------------------ MODULE NounTok ------------------------------
(* NounLMatchTokenizer ("L") follows an eojeol from its start, one longest   *)
(* noun after the other, as long as they touch; NounMatchTokenizer ("M")     *)
(* keeps the nouns of the best-first segmentation and joins touching ones.   *)
EXTENDS GreedySeg
VARIABLES
  kind, dict,   \* "L" or "M"; noun -> score (only the nouns count for "L")
  compose,      \* join touching nouns into a compound?
  queue, cur,   \* eojeols to be done, eojeol at hand
  pos,          \* end of the nouns found so far, -1 when idle
  found,        \* nouns of the eojeol: <<word, begin, end, score, length>>
  out           \* nouns per eojeol
nvars == <<kind, dict, compose, queue, cur, pos, found, out>>
Nouns == DOMAIN dict
StartingAt(w, b) == {e \in (b + 1)..Len(w) : Slice(w, b, e) \in Nouns}

Call(text, join) ==
  /\ pos = -1 /\ queue = <<>> /\ queue' = SplitWhite(text) /\ compose' = join /\ out' = <<>>
  /\ UNCHANGED <<kind, dict, cur, pos, found>>
Take == /\ pos = -1 /\ queue # <<>> /\ cur' = Head(queue) /\ queue' = Tail(queue)
        /\ pos' = 0 /\ found' = <<>> /\ UNCHANGED <<kind, dict, compose, out>>
(* "L": the longest noun that starts where the last one ended *)
Extend ==
  /\ kind = "L" /\ pos >= 0 /\ StartingAt(cur, pos) # {}
  /\ LET e == CHOOSE x \in StartingAt(cur, pos) : \A y \in StartingAt(cur, pos) : y <= x
     IN found' = Append(found, <<Slice(cur, pos, e), pos, e>>) /\ pos' = e
  /\ UNCHANGED <<kind, dict, compose, queue, cur, out>>
StopL ==
  /\ kind = "L" /\ pos >= 0 /\ StartingAt(cur, pos) = {}
  /\ out' = Append(out, IF found = <<>> THEN <<>>
                        ELSE IF compose THEN <<<<Slice(cur, 0, pos), 0, pos>>>> ELSE found)
  /\ pos' = -1 /\ found' = <<>> /\ UNCHANGED <<kind, dict, compose, queue, cur>>
(* "M": touching nouns become one, with the best score among them *)
RECURSIVE Join(_, _, _)
Join(w, toks, acc) ==
  IF toks = <<>> THEN acc
  ELSE LET h == Head(toks)
           last == acc[Len(acc)]
       IN IF acc # <<>> /\ last[3] = h[2]
          THEN Join(w, Tail(toks), [acc EXCEPT ![Len(acc)] =
                 <<Slice(w, last[2], h[3]), last[2], h[3], Max2(last[4], h[4]), h[3] - last[2]>>])
          ELSE Join(w, Tail(toks), Append(acc, h))
Match ==
  /\ kind = "M" /\ pos >= 0
  /\ LET ns == SelectSeq(Segment(dict, 10, 0, cur), LAMBDA x : x[4] > 0)
     IN out' = Append(out, IF compose THEN Join(cur, ns, <<>>) ELSE ns)
  /\ pos' = -1 /\ UNCHANGED <<kind, dict, compose, queue, cur, found>>
Work == Take \/ Extend \/ StopL \/ Match
Finished == pos = -1 /\ queue = <<>>
Words == Concat([i \in 1..Len(out) |-> [j \in 1..Len(out[i]) |-> out[i][j][1]]])
-----------------------------------------------------------------------------
Positions(text) == Finished =>
  LET ws == SplitWhite(text) IN
  \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) :
    /\ out[i][j][1] = Slice(ws[i], out[i][j][2], out[i][j][3]) /\ out[i][j][1] # <<>>
    /\ j > 1 => out[i][j][2] >= out[i][j - 1][3]
    /\ (j > 1 /\ compose) => out[i][j][2] > out[i][j - 1][3]
OnlyNouns == ~compose => \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) : out[i][j][1] \in Nouns
=============================================================================

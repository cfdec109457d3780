------------------------------ MODULE MaxScore ------------------------------
(* MaxScoreTokenizer: each eojeol of a sentence is segmented by repeatedly   *)
(* taking the candidate with the highest score (then the longest, then the   *)
(* leftmost) and discarding the candidates overlapping it; what no pick      *)
(* covers becomes a token of its own.                                        *)
EXTENDS GreedySeg

VARIABLES
  dict,     \* word -> score
  maxlen,   \* longest candidate considered
  ds,       \* score of a word that is not in the dictionary
  queue,    \* eojeols still to be segmented
  cur,      \* the eojeol being segmented
  pool,     \* candidate spans <<begin, end, score>> not yet picked or discarded
  picks,    \* spans picked, in order
  phase,    \* "idle", "pick"
  out       \* finished eojeols: sequences of <<word, begin, end, score, length>>
msvars == <<dict, maxlen, ds, queue, cur, pool, picks, phase, out>>

ScoreOf(w) == Get(dict, w, ds)
TokenOf(w, b, e) == TokenIn(dict, ds, w, b, e)
Candidates(w) == CandidatesIn(dict, maxlen, ds, w)
Cover(w, S, from) == CoverIn(dict, ds, w, S, from)

MSReset(d, m, s) == dict = d /\ maxlen = m /\ ds = s /\ queue = <<>> /\ cur = <<>>
                    /\ pool = {} /\ picks = <<>> /\ phase = "idle" /\ out = <<>>

(* tokenize(text) is called *)
Call(text) ==
  /\ phase = "idle" /\ queue = <<>>
  /\ queue' = SplitWhite(text) /\ out' = <<>>
  /\ UNCHANGED <<dict, maxlen, ds, cur, pool, picks, phase>>

(* an eojeol of at most two characters is one token *)
TakeShort ==
  /\ phase = "idle" /\ queue # <<>> /\ Len(Head(queue)) <= 2
  /\ out' = Append(out, <<TokenOf(Head(queue), 0, Len(Head(queue)))>>)
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<dict, maxlen, ds, cur, pool, picks, phase>>

TakeLong ==
  /\ phase = "idle" /\ queue # <<>> /\ Len(Head(queue)) > 2
  /\ cur' = Head(queue) /\ queue' = Tail(queue)
  /\ pool' = Candidates(Head(queue)) /\ picks' = <<>> /\ phase' = "pick"
  /\ UNCHANGED <<dict, maxlen, ds, out>>

Pick ==
  /\ phase = "pick" /\ pool # {}
  /\ LET x == BestSpan(pool)
     IN /\ picks' = Append(picks, x)
        /\ pool' = {y \in pool : ~Overlap(x, y)}
  /\ UNCHANGED <<dict, maxlen, ds, queue, cur, phase, out>>

Fill ==
  /\ phase = "pick" /\ pool = {}
  /\ out' = Append(out, Cover(cur, SeqRange(picks), 0))
  /\ phase' = "idle" /\ pool' = {} /\ picks' = <<>> /\ cur' = <<>>
  /\ UNCHANGED <<dict, maxlen, ds, queue>>

Work == TakeShort \/ TakeLong \/ Pick \/ Fill
Finished == phase = "idle" /\ queue = <<>>

-----------------------------------------------------------------------------
(* what a caller relies on *)
Surface(toks) == Concat([i \in 1..Len(toks) |-> toks[i][1]])
Lossless(text) == Finished => [i \in 1..Len(out) |-> Surface(out[i])] = SplitWhite(text)
Contiguous ==
  \A i \in 1..Len(out) :
    /\ out[i] # <<>> /\ out[i][1][2] = 0
    /\ \A j \in 1..Len(out[i]) :
         /\ out[i][j][3] - out[i][j][2] = Len(out[i][j][1])
         /\ out[i][j][5] = Len(out[i][j][1]) /\ out[i][j][5] > 0
         /\ out[i][j][4] = ScoreOf(out[i][j][1])
         /\ j > 1 => out[i][j][2] = out[i][j - 1][3]
PicksDisjoint ==
  \A i, j \in 1..Len(picks) : i # j => ~Overlap(picks[i], picks[j])
(* the machine computes the greedy segmentation *)
IsSegmentation(text) ==
  Finished => [i \in 1..Len(out) |-> Segment(dict, maxlen, ds, SplitWhite(text)[i])] = out
(* a later pick is never preferred to an earlier one *)
PicksOrdered ==
  phase = "pick" =>
    \A i, j \in 1..Len(picks) : i < j => Preferred(picks[i], picks[j])
(* the best word of an eojeol is always one of its tokens *)
BestIsKept ==
  (phase = "pick" /\ picks # <<>>) =>
    \A c \in Candidates(cur) : c = picks[1] \/ Preferred(picks[1], c)
=============================================================================

-------------------------------- MODULE LTok --------------------------------
(* LTokenizer: each eojeol is cut into L + R at the best scoring L.          *)
EXTENDS Text
VARIABLES
  dict, ds,   \* score table, default score
  tol,        \* tolerance of the current call
  queue,      \* eojeols still to be cut
  out         \* <<L, R>> of the eojeols cut so far
ltvars == <<dict, ds, tol, queue, out>>
ScoreOf(w) == Get(dict, w, ds)
Lefts(w) == {e \in 2..Len(w) : TRUE}          \* lengths of candidate left parts
Sc(w, e) == ScoreOf(SubSeq(w, 1, e))
MaxSc(w) == LET S == {Sc(w, e) : e \in Lefts(w)} IN CHOOSE m \in S : \A x \in S : x <= m
(* the longest left part whose score is within the tolerance of the best *)
CutAt(w, tolerance) ==
  LET near == {e \in Lefts(w) : MaxSc(w) - Sc(w, e) <= (IF tolerance > 0 THEN tolerance ELSE 0)}
  IN CHOOSE e \in near : \A x \in near : x <= e
Cut(w, tolerance) ==
  IF Len(w) <= 2 THEN <<w, <<>>>>
  ELSE LET e == CutAt(w, tolerance) IN <<SubSeq(w, 1, e), SubSeq(w, e + 1, Len(w))>>

Call(text, tolerance) ==
  /\ queue = <<>> /\ queue' = SplitWhite(text) /\ tol' = tolerance /\ out' = <<>>
  /\ UNCHANGED <<dict, ds>>
CutEojeol ==
  /\ queue # <<>> /\ out' = Append(out, Cut(Head(queue), tol)) /\ queue' = Tail(queue)
  /\ UNCHANGED <<dict, ds, tol>>
Pairs == out
Words == SelectSeq(Concat([i \in 1..Len(out) |-> out[i]]), LAMBDA w : w # <<>>)
Ls == [i \in 1..Len(out) |-> out[i][1]]
-----------------------------------------------------------------------------
Lossless(text) == queue = <<>> => [i \in 1..Len(out) |-> out[i][1] \o out[i][2]] = SplitWhite(text)
LeftNonEmpty == \A i \in 1..Len(out) : out[i][1] # <<>> /\ (out[i][2] # <<>> => Len(out[i][1]) >= 2)
(* no left part beats the chosen one by more than the tolerance, and no longer
   one is as good *)
BestLeft ==
  \A i \in 1..Len(out) :
    LET w == out[i][1] \o out[i][2]
    IN Len(w) > 2 =>
         \A e \in 2..Len(w) : /\ Sc(w, e) - ScoreOf(out[i][1]) <= Max2(tol, 0)
                              /\ (tol <= 0 /\ e > Len(out[i][1])) => Sc(w, e) < ScoreOf(out[i][1])
=============================================================================

------------------------------ MODULE RegexTok ------------------------------
(* RegexTokenizer: an eojeol is cut by one character class after the other:  *)
(* numbers, Hangul syllables, consonants, vowels, Latin words.               *)
EXTENDS Text
VARIABLES
  queue,    \* eojeols still to be cut
  pieces,   \* the eojeol being cut: <<text, class>>; class 0: not claimed yet
  stage,    \* class to be applied next (6: all applied)
  out       \* finished eojeols, each a sequence of tokens
rtvars == <<queue, pieces, stage, out>>
Digit(c) == c \in 48..57 \/ c \in 1632..1641 \/ c \in 65296..65305
Letter(c) == c \in 97..122 \/ c \in 65..90 \/ c \in 192..255
InClass(c, k) == CASE k = 1 -> Digit(c)
                   [] k = 2 -> c \in 44032..55203      \* syllables
                   [] k = 3 -> c \in 12593..12622      \* consonants
                   [] k = 4 -> c \in 12623..12643      \* vowels
                   [] k = 5 -> Letter(c)
                   [] OTHER -> FALSE
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, k) == IF i <= Len(s) /\ InClass(s[i], k) THEN RunEnd(s, i + 1, k) ELSE i
(* the position after the match of class k at i, or i if there is none *)
NumberEnd(s, i) ==
  LET j == IF s[i] \in {43, 45} THEN i + 1 ELSE i
      d == RunEnd(s, j, 1)
  IN IF d < Len(s) /\ s[d] = 46 /\ Digit(s[d + 1]) THEN RunEnd(s, d + 1, 1)
     ELSE IF d > j THEN d ELSE i
LatinEnd(s, i) ==
  LET e == RunEnd(s, i, 5)
  IN IF e > i /\ e < Len(s) /\ s[e] \in {39, 96} /\ s[e + 1] = 115 THEN e + 2 ELSE e
MatchEnd(s, i, k) ==
  IF k = 1 THEN NumberEnd(s, i) ELSE IF k = 5 THEN LatinEnd(s, i)
  ELSE RunEnd(s, i, k)
(* b: start of the unclaimed text before i *)
RECURSIVE CutBy(_, _, _, _)
CutBy(s, i, b, k) ==
  LET rest == IF b < i THEN <<<<SubSeq(s, b, i - 1), 0>>>> ELSE <<>>
  IN IF i > Len(s) THEN rest
     ELSE LET e == MatchEnd(s, i, k)
          IN IF e = i THEN CutBy(s, i + 1, b, k)
             ELSE rest \o <<<<SubSeq(s, i, e - 1), k>>>> \o CutBy(s, e, e, k)

Call(text) == /\ queue = <<>> /\ pieces = <<>> /\ queue' = SplitWhite(text) /\ out' = <<>>
              /\ stage' = 1 /\ UNCHANGED pieces
Take == /\ pieces = <<>> /\ queue # <<>> /\ pieces' = <<<<Head(queue), 0>>>> /\ queue' = Tail(queue)
        /\ stage' = 1 /\ UNCHANGED out
ApplyClass == /\ pieces # <<>> /\ stage <= 5 /\ stage' = stage + 1
              /\ pieces' = Concat([i \in 1..Len(pieces) |->
                                     IF pieces[i][2] # 0 THEN <<pieces[i]>>
                                     ELSE CutBy(pieces[i][1], 1, 1, stage)])
              /\ UNCHANGED <<queue, out>>
Emitted == [i \in 1..Len(pieces) |-> pieces[i][1]]
Finish == /\ pieces # <<>> /\ stage = 6 /\ out' = Append(out, Emitted)
          /\ pieces' = <<>> /\ stage' = 1 /\ UNCHANGED queue
Finished == queue = <<>> /\ pieces = <<>>
-----------------------------------------------------------------------------
Lossless(text) == Finished => [i \in 1..Len(out) |-> Concat(out[i])] = SplitWhite(text)
NoEmptyToken == \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) : out[i][j] # <<>>
(* a run of one class is never cut and never merged: neighbouring tokens of
   syllables, consonants or vowels do not both end and start in the same class *)
MaximalRuns ==
  \A i \in 1..Len(out) : \A j \in 1..(Len(out[i]) - 1) :
    \A k \in 2..4 : ~(InClass(out[i][j][Len(out[i][j])], k) /\ InClass(out[i][j + 1][1], k))
Pure ==
  \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) : \A k \in 2..4 :
    (\E x \in 1..Len(out[i][j]) : InClass(out[i][j][x], k)) =>
       \A x \in 1..Len(out[i][j]) : InClass(out[i][j][x], k)
=============================================================================

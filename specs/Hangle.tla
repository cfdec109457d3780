------------------------------- MODULE Hangle -------------------------------
(* A Hangul character is taken apart into its letters and put together.      *)
EXTENDS HangleChars
(* a character under examination: it is taken apart and put together again *)
VARIABLES ch, parts, again, step
hgvars == <<ch, parts, again, step>>
Examine(c) == step = "idle" /\ ch' = c /\ parts' = <<>> /\ again' = -1 /\ step' = "apart"
TakeApart == step = "apart" /\ parts' = Letters(ch) /\ step' = "join" /\ UNCHANGED <<ch, again>>
PutTogether ==
  /\ step = "join" /\ step' = "done"
  /\ again' = IF parts = <<>> THEN -1
              ELSE IF parts[1] # Blank /\ parts[2] # Blank THEN Syllable(parts[1], parts[2], parts[3])
              ELSE IF parts[1] # Blank THEN parts[1] ELSE parts[2]
  /\ UNCHANGED <<ch, parts>>
Lossless == step = "done" => IF IsHangul(ch) THEN again = ch ELSE parts = <<>>
LettersInSlots ==
  (step \in {"join", "done"} /\ parts # <<>>) =>
    /\ parts[1] \in InitialSet \cup {Blank} \cup JaumFirst..JaumLast
    /\ parts[2] \in VowelSet \cup {Blank}
    /\ parts[3] \in FinalSet
    /\ (IsSyllable(ch) <=> parts[1] # Blank /\ parts[2] # Blank)
ClassesDisjoint ==
  step # "idle" =>
    Cardinality({n \in 1..6 :
       IF n = 1 THEN IsSyllable(ch) ELSE IF n = 2 THEN IsJaum(ch) ELSE IF n = 3 THEN IsMoum(ch)
       ELSE IF n = 4 THEN IsDigit(ch) ELSE IF n = 5 THEN IsLatin(ch) ELSE IsPunct(ch)}) <= 1
=============================================================================

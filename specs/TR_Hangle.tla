----------------------------- MODULE TR_Hangle -----------------------------
(* A record covers a range of code points: which ones each predicate accepts *)
(* and the letters of those that were decomposed; or a list of letter        *)
(* triples and what they were composed to.                                   *)
EXTENDS Hangle, TraceIO
VARIABLES t, k
vars == <<hgvars, t, k>>
R == Trace[t]
Kinds == <<"korean", "complete", "jaum", "moum", "number", "english", "punct">>
InClass(n, c) ==
  IF n = "korean" THEN IsHangul(c) ELSE IF n = "complete" THEN IsSyllable(c)
  ELSE IF n = "jaum" THEN IsJaum(c) ELSE IF n = "moum" THEN IsMoum(c)
  ELSE IF n = "number" THEN IsDigit(c) ELSE IF n = "english" THEN IsLatin(c) ELSE IsPunct(c)
Init == t \in 1..Len(Trace) /\ k = 1 /\ ch = -1 /\ parts = <<>> /\ again = -1 /\ step = "idle"
Want(n) == {c \in R.from..R.to : InClass(n, c)}
Got(n) == {R.accept[i][2] : i \in {j \in 1..Len(R.accept) : R.accept[j][1] = n}}
BadClass == {n \in SeqRange(Kinds) : Got(n) # Want(n)}
ClassClause ==
  IF R.exc # "" THEN R.exc
  ELSE IF BadClass # {} THEN "character class " \o (CHOOSE n \in BadClass : TRUE)
  ELSE IF {R.letters[i][1] : i \in 1..Len(R.letters)} # Want("korean") THEN "which characters decompose"
  ELSE ""
(* each decomposed or composed character is examined by the machine itself *)
N == Len(R.letters)
Next ==
  \/ /\ k = 1 /\ step = "idle"
     /\ IF ClassClause = "" THEN k' = 2
        ELSE RejectAt(t, 1, ClassClause, [n \in BadClass |-> Want(n) \ Got(n)]) /\ k' = 1000000
     /\ UNCHANGED <<hgvars, t>>
  \/ k \in 2..(N + 1) /\ step = "idle" /\ Examine(R.letters[k - 1][1]) /\ UNCHANGED <<t, k>>
  \/ (TakeApart \/ PutTogether) /\ UNCHANGED <<t, k>>
  \/ /\ k \in 2..(N + 1) /\ step = "done"
     /\ LET o == R.letters[k - 1]
            clause == IF o[2] # parts THEN "letters"
                      ELSE IF IsSyllable(ch) /\ o[3] # again THEN "composition of the letters" ELSE ""
        IN IF clause = "" THEN k' = k + 1
           ELSE RejectAt(t, k, clause, <<ch, parts, again>>) /\ k' = 1000000
     /\ step' = "idle" /\ UNCHANGED <<ch, parts, again, t>>
  \/ k = N + 2 /\ Accept(t) /\ k' = 2000000 /\ UNCHANGED <<hgvars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE TR_LTok ------------------------------
EXTENDS LTok, TraceIO
VARIABLES t, c, on
vars == <<ltvars, t, c, on>>
R == Trace[t]
Obs == R.calls[c]
Init == /\ t \in 1..Len(Trace) /\ c = 0 /\ on = FALSE
        /\ dict = <<>> /\ ds = 0 /\ tol = 0 /\ queue = <<>> /\ out = <<>>
Clause ==
  IF Obs.exc # "" THEN "the call raised or did not return"
  ELSE IF Obs.form = "pairs" THEN IF Obs.pairs = Pairs THEN "" ELSE "pairs"
  ELSE IF Obs.form = "L" THEN IF Obs.words = Ls THEN "" ELSE "left parts"
  ELSE IF Obs.words = Words THEN "" ELSE "words"
Next ==
  \/ c = 0 /\ c' = 1 /\ dict' = MkDict(R.dict) /\ ds' = R.ds /\ UNCHANGED <<tol, queue, out, t, on>>
  \/ c \in 1..Len(R.calls) /\ ~on /\ Call(Obs.text, Obs.tol) /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ on /\ CutEojeol /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ queue = <<>> /\ on' = FALSE /\ UNCHANGED <<ltvars, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, Pairs) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<ltvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

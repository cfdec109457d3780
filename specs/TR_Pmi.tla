------------------------------- MODULE TR_Pmi -------------------------------
EXTENDS Pmi, TraceIO
VARIABLES t, c, on
vars == <<pmvars, t, c, on>>
R == Trace[t]
E == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ PmInit
One == <<1, 1>>
Got == {<<x[1], x[2]>> : x \in {y \in SeqRange(E.cells) : ~Same(y[3], One)}}
Must == {<<x[1], x[2]>> : x \in {y \in kept : ~Same(y[3], One) /\ ~Same(y[3], least)}}
May == {<<x[1], x[2]>> : x \in {y \in kept : ~Same(y[3], One)}}
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE IF E.shape # <<Len(mat), Len(mat[1])>> THEN "shape"
  ELSE IF \E x \in SeqRange(E.cells) : ~Same(x[3], Ratio(mat, Wts, Whl, alpha, x[1], x[2])) THEN "value"
  ELSE IF ~(Must \subseteq Got /\ Got \subseteq May) THEN "which values are kept"
  ELSE IF \E i \in 1..Len(mat) : ~Same(E.px[i], <<RowSum(mat, i), Total(mat)>>) THEN "row probabilities"
  ELSE IF \E j \in 1..Len(mat[1]) : ~Same(E.py[j], <<Wts[j], Whl>>) THEN "column probabilities"
  ELSE ""
Next ==
  \/ /\ c <= Len(R.calls) /\ ~on /\ on' = TRUE /\ UNCHANGED <<t, c>>
     /\ Begin(E.m, E.given, E.half, E.whole, E.alpha, E.least)
  \/ on /\ PmStep /\ UNCHANGED <<t, c, on>>
  \/ /\ on /\ stage = "done" /\ on' = FALSE /\ stage' = "idle"
     /\ UNCHANGED <<mat, giv, half, whole, alpha, least, row, kept, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, kept) /\ c' = 1000000
  \/ ~on /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<pmvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

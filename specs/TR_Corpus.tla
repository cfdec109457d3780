----------------------------- MODULE TR_Corpus -----------------------------
(* Recorded use of one corpus object: len(), iterators advanced one item at  *)
(* a time and in any interleaving.                                           *)
EXTENDS Corpus, TraceIO
VARIABLES t, l
vars == <<cvars, t, l>>
R == Trace[t]
Ev == R.events[l]
Init == /\ t \in 1..Len(Trace) /\ l = 0 /\ lines = <<>> /\ its = [k \in {} |-> 0]
        /\ opt = [doc |-> -1, sent |-> -1, bysent |-> FALSE]
Judge(clause, e) == IF clause = "" THEN l' = l + 1
                    ELSE RejectAt(t, l, clause, e) /\ l' = 1000000
Exc == IF Ev.exc # "" THEN "the call raised" ELSE ""
Next ==
  \/ l = 0 /\ l' = 1 /\ lines' = Body(R.text, R.header) /\ opt' = R.opt /\ UNCHANGED <<its, t>>
  \/ /\ l \in 1..Len(R.events) /\ Ev.op = "iter" /\ OpenIt(Ev.k) /\ Judge(Exc, "") /\ UNCHANGED t
  \/ /\ l \in 1..Len(R.events) /\ Ev.op = "next"
     /\ Judge(IF Exc # "" THEN Exc
              ELSE IF Ev.more # Answer(Ev.k)[1] THEN "number of items"
              ELSE IF Ev.item # Answer(Ev.k)[2] THEN "item" ELSE "", Answer(Ev.k))
     /\ Advanced(Ev.k) /\ UNCHANGED t
  \/ /\ l \in 1..Len(R.events) /\ Ev.op = "len"
     /\ Judge(IF Exc # "" THEN Exc ELSE IF Ev.n # Length THEN "length" ELSE "", Length)
     /\ UNCHANGED <<cvars, t>>
  \/ /\ l \in 1..Len(R.events) /\ Ev.op = "list"
     /\ Judge(IF Exc # "" THEN Exc ELSE IF Ev.items # Items THEN "items" ELSE "", Items)
     /\ UNCHANGED <<cvars, t>>
  \/ l = Len(R.events) + 1 /\ Accept(t) /\ l' = l + 1 /\ UNCHANGED <<cvars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

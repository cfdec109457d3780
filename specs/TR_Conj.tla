------------------------------ MODULE TR_Conj ------------------------------
EXTENDS Conjugation, TraceIO
VARIABLES t, c
vars == <<cjvars, t, c>>
R == Trace[t]
E == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ CjInit
Pre(pairs) == [k \in {p[1] : p \in SeqRange(pairs)} |-> UNION {SeqRange(p[2]) : p \in {q \in SeqRange(pairs) : q[1] = k}}]
Request ==
  CASE E.fn \in {"conj", "conjchat"} -> [fn |-> E.fn, s |-> E.s, e |-> E.e, harmony |-> E.harmony]
    [] E.fn = "forms" -> [fn |-> E.fn, s |-> E.s]
    [] E.fn \in {"lemma", "lemmachat"} -> [fn |-> E.fn, l |-> E.l, r |-> E.r, pre |-> Pre(E.pre)]
    [] E.fn = "all" -> [fn |-> E.fn, word |-> E.word, pre |-> Pre(R.pre)]
    [] E.fn = "known" -> [fn |-> E.fn, word |-> E.word, pre |-> Pre(R.pre), only |-> E.only,
                          stems |-> SeqRange(R.stems), endings |-> SeqRange(R.endings)]
Got == SeqRange(E.got)
Clause == IF E.exc # "" THEN "the call raised"
          ELSE IF Len(E.got) # Cardinality(Got) THEN "a result twice"
          ELSE IF ~(Got \subseteq out) THEN "a form no rule gives"
          ELSE IF ~(out \subseteq Got) THEN "a form is missing"
          ELSE ""
Next ==
  \/ c <= Len(R.calls) /\ Ask(Request) /\ UNCHANGED <<t, c>>
  \/ Answer /\ UNCHANGED <<t, c>>
  \/ /\ step = "done" /\ step' = "idle" /\ UNCHANGED <<req, out, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, E.fn \o ": " \o Clause, ListOf(out)) /\ c' = 1000000
  \/ c = Len(R.calls) + 1 /\ step = "idle" /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<cjvars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

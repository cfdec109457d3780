----------------------------- MODULE TR_PosTag -----------------------------
(* Recorded calls of the template taggers, with the dictionary, templates,   *)
(* weights and preferences in force at each call.                            *)
EXTENDS PosTag, TraceIO
VARIABLES t, c, k, on
vars == <<ptvars, t, c, k, on>>
R == Trace[t]
E == R.calls[c]
DictOf(ps) == [g \in {p[1] : p \in SeqRange(ps)} |-> UNION {SeqRange(p[2]) : p \in {q \in SeqRange(ps) : q[1] = g}}]
Td == DictOf(E.dict)
Pref == [x \in {<<p[1], p[2]>> : p \in SeqRange(R.pref)} |-> (CHOOSE p \in SeqRange(R.pref) : <<p[1], p[2]>> = x)[3]]
Ltags == SeqRange(R.ltags)
Tpl == DictOf(R.tpl)
Singles == SeqRange(R.singles)
Pairs == SeqRange(R.pairs)
AsW(x) == [b |-> x[1], m |-> x[2], e |-> x[3], l |-> x[4], lt |-> x[5], r |-> x[6], rt |-> x[7]]
AsSeq(xs) == [i \in 1..Len(xs) |-> AsW(xs[i])]
AsSet(xs) == {AsW(xs[i]) : i \in 1..Len(xs)}
AllOf(w) == IF R.kind = "lr" THEN LRAll(Td, Ltags, Tpl, w) ELSE EojeolAll(Td, Singles, Pairs, w)
Score(x) == IF R.kind = "lr" THEN LRScore(R.weights, Pref, x) ELSE EojeolScore(R.weights, x)
Cand(x) == IF R.kind = "lr" THEN AsW(x) ELSE AsSeq(x)
(* the eojeols a call works on: <<candidates, what was chosen>> *)
Rounds == CASE E.fn = "select" -> 1 [] E.fn = "tag" -> Len(SplitWhite(E.sent)) [] OTHER -> 0
Token == IF E.fn = "tag" THEN SplitWhite(E.sent)[k] ELSE E.tok
Observed == IF E.fn = "tag" THEN E.chosen[k] ELSE E.got
Offered == IF E.fn = "tag" THEN AllOf(Token) ELSE {Cand(E.cand[i]) : i \in 1..Len(E.cand)}
Shown(i) == LET S == AsSet(E.chosen[i]) IN Show(IF R.filler THEN Filled(SplitWhite(E.sent)[i], S) ELSE S)
Init == t \in 1..Len(Trace) /\ c = 1 /\ k = 1 /\ on = "ask" /\ PtInit
Unsorted(xs, key(_)) == \E i \in 1..(Len(xs) - 1) : key(xs[i]) > key(xs[i + 1])
First(x) == IF R.kind = "lr" THEN x[1] ELSE 0
DebugBad(d, w) ==
  LET got == {<<Cand(d[i][1]), d[i][2]>> : i \in 1..Len(d)}
  IN got # {<<x, Score(x)>> : x \in AllOf(w)}
     \/ Unsorted(d, LAMBDA x : IF R.kind = "lr" THEN 100000 * x[1][1] + x[2] ELSE x[2])
(* answers that need no choosing *)
Plain ==
  IF E.exc # "" THEN "the call raised"
  ELSE IF E.fn = "generate" THEN
     LET got == {Cand(E.got[i]) : i \in 1..Len(E.got)} IN
     IF ~(got \subseteq AllOf(E.tok)) THEN "a candidate that is not one"
     ELSE IF ~(AllOf(E.tok) \subseteq got) THEN "a candidate is missing"
     ELSE IF Len(E.got) # Cardinality(got) /\ R.kind = "lr" THEN "a candidate twice"
     ELSE IF R.kind = "lr" /\ Unsorted(E.got, LAMBDA x : x[1]) THEN "candidates out of order" ELSE ""
  ELSE IF E.fn = "evaluate" THEN IF E.score = Score(Cand(E.of)) THEN "" ELSE "the score"
  ELSE IF E.fn = "tag" THEN
     IF Len(E.chosen) # Len(SplitWhite(E.sent)) THEN "an eojeol was not chosen for"
     ELSE IF E.out # [i \in 1..Len(E.chosen) |-> Shown(i)] /\ ~E.flat THEN "the words shown"
     ELSE IF E.flat /\ E.flatout # Concat([i \in 1..Len(E.chosen) |-> Shown(i)]) THEN "the words shown"
     ELSE IF E.debug /\ (Len(E.scored) # Len(SplitWhite(E.sent)) \/ \E i \in 1..Len(E.scored) : DebugBad(E.scored[i], SplitWhite(E.sent)[i])) THEN "the scored candidates"
     ELSE ""
  ELSE ""
Fail(why, exp) == RejectAt(t, c, E.fn \o ": " \o why, exp) /\ c' = 1000000 /\ on' = "end" /\ UNCHANGED <<t, k, tok, cand, chosen, step>>
Ask == /\ on = "ask" /\ c <= Len(R.calls)
       /\ IF Plain # "" THEN Fail(Plain, IF E.fn = "evaluate" THEN {Score(Cand(E.of))} ELSE IF E.fn = "generate" THEN AllOf(E.tok) ELSE {})
          ELSE k' = 1 /\ on' = "round" /\ UNCHANGED <<t, c, ptvars>>
(* one eojeol: the greedy machine picks, following what was observed among equals *)
Begin == /\ on = "round" /\ k <= Rounds /\ on' = "pick" /\ UNCHANGED <<t, c, k>> /\ Offer(Token, Offered)
Greedy ==
  /\ on = "pick" /\ R.kind = "lr"
  /\ LET top == IF cand = {} THEN {} ELSE Best(R.weights, Pref, cand)
         seen == AsSet(Observed)
     IN IF cand # {} /\ top \cap seen # {} THEN (LET x == CHOOSE x \in top \cap seen : TRUE IN Pick(R.weights, Pref, x)) /\ UNCHANGED <<t, c, k, on>>
        ELSE IF cand # {} THEN Fail("a better word was left out", top)
        ELSE IF seen # chosen \/ Len(Observed) # Cardinality(chosen) THEN Fail("a word that was not chosen", chosen)
        ELSE IF Unsorted(Observed, LAMBDA x : x[1]) THEN Fail("words out of order", chosen)
        ELSE on' = "round" /\ k' = k + 1 /\ step' = "idle" /\ UNCHANGED <<t, c, tok, cand, chosen>>
Whole ==
  /\ on = "pick" /\ R.kind = "eojeol"
  /\ IF cand = {} \/ AsSeq(Observed) \in EojeolBest(R.weights, cand)
     THEN on' = "round" /\ k' = k + 1 /\ step' = "idle" /\ UNCHANGED <<t, c, tok, cand, chosen>>
     ELSE Fail("not the best decomposition", EojeolBest(R.weights, cand))
NextCall == on = "round" /\ k > Rounds /\ on' = "ask" /\ c' = c + 1 /\ UNCHANGED <<t, k, ptvars>>
Finish == on = "ask" /\ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<t, k, on, ptvars>>
Next == Ask \/ Begin \/ Greedy \/ Whole \/ NextCall \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================

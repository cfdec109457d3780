----------------------------- MODULE TR_NounV1 -----------------------------
EXTENDS NounV1, TraceIO
VARIABLES t, c, on
vars == <<n1vars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ N1Init
Best(fs) == [k \in {f[1] : f \in SeqRange(fs)} |->       \* the best coefficient of a right part listed twice
               LET v == {f[2] : f \in {f \in SeqRange(fs) : f[1] = k}} IN CHOOSE x \in v : \A y \in v : y <= x]
Words == IF E.given = <<>> THEN DOMAIN sub ELSE SeqRange(E.given)
Step ==
  CASE E.op = "train" -> Train(E.sents, E.minf)
    [] E.op = "extract" -> ExtractAll([min |-> E.min, words |-> Words])
    [] OTHER -> UNCHANGED n1vars
ShakyNow == E.op = "extract" /\ \E w \in DOMAIN JudgeAll(coef, cf, rel, Candidates(args), args.min, <<>>) : Shaky(sub, w)
(* equal scores of unlike parts: rounding decides which part's share is taken *)
Tie(x, y) == x.num * y.den = y.num * x.den /\ x # y
TiedNow == ~T.exact /\ LET P == JudgeAll(coef, cf, rel, Candidates(args), args.min, <<>>) IN \E v, w \in DOMAIN P : Tie(P[v], P[w])
Near(micro, num, den) == Abs(micro * den - num) <= den
NearRatio(micro, num, den) == Abs(micro * den - num * Million) <= den
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "extract" ->
         IF ShakyNow THEN ""
         ELSE IF {x[1] : x \in SeqRange(E.nouns)} # DOMAIN found \/ Len(E.nouns) # Cardinality(DOMAIN found) THEN "the nouns"
         ELSE IF \E x \in SeqRange(E.nouns) : x[2] # freq[x[1]] THEN "a frequency"
         ELSE IF \E x \in SeqRange(E.nouns) : ~Near(x[3], found[x[1]].num, found[x[1]].den) THEN "a score"
         ELSE IF ~TiedNow /\ \E x \in SeqRange(E.nouns) : ~NearRatio(x[4], found[x[1]].kn, found[x[1]].kd) THEN "a share of known right parts"
         ELSE ""
    [] E.op = "predict" ->
         LET p == Judge(coef, cf, rel, <<>>, E.w, <<1, 2>>)
         IN IF Near(E.score, p.num, p.den) /\ NearRatio(E.share, p.kn, p.kd) THEN "" ELSE "the judgement"
    [] E.op = "is_noun" ->
         IF E.yes = Reaches(Judge(coef, cf, rel, <<>>, E.w, <<1, 2>>), E.min) THEN "" ELSE "the answer"
    [] OTHER -> ""
Expected ==
  CASE E.op = "extract" -> [nouns |-> ListOf({<<w, freq[w], found[w]>> : w \in DOMAIN found})]
    [] E.op \in {"predict", "is_noun"} -> [judge |-> Judge(coef, cf, rel, <<>>, E.w, <<1, 2>>)]
    [] OTHER -> [op |-> E.op]
Begin == phase = "new" /\ Make(T.cf, Best(T.coef)) /\ UNCHANGED <<t, c, on>>
Next ==
  \/ Begin
  \/ phase # "new" /\ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<n1vars, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<n1vars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE TR_NewsNoun ----------------------------
EXTENDS NewsNoun, TraceIO
VARIABLES t, c, on
vars == <<nnvars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ NnInit
Best(fs) == [k \in {f[1] : f \in SeqRange(fs)} |->       \* the best score of a right part listed twice
               LET v == {f[2] : f \in {f \in SeqRange(fs) : f[1] = k}} IN CHOOSE x \in v : \A y \in v : y <= x]
Conf == [lmax |-> T.lmax, rmax |-> T.rmax, feats |-> Best(T.feats), preds |-> SeqRange(T.preds)]
Args == [min |-> E.min, prop |-> E.prop, minf |-> E.minf, cands |-> E.cands]
Step ==
  CASE E.op = "train" -> Train(E.sents)
    [] E.op = "extract" -> ExtractAll(Args)
    [] OTHER -> UNCHANGED nnvars
(* comparisons that rounding may turn: a mean at a limit, sums of shares at a half *)
Halfway(w, S) == LET rs == DOMAIN g.rights[w] \cap S  in(r) == r \in rs  all(r) == TRUE
                 IN Cardinality(rs) > 1 /\ 2 * Sum(w, in) = Sum(w, all)
Doubt ==
  \/ ~T.exact /\ \E w \in DOMAIN g.judge : LET j == g.judge[w] IN
        j.norm > 0 /\ \E q \in {<<2, 5>>, <<7, 10>>, args.min} : j.num * q[2] = q[1] * Million * j.norm
  \/ \E w \in DOMAIN g.rights : (w[Len(w)] = 51004 /\ Halfway(w, RoSet)) \/ (w[Len(w)] = 50630 /\ Halfway(w, NeunSet))
Near(micro, num, den) == Abs(micro * den - num) <= den
NearRatio(micro, num, den) == Abs(micro * den - num * Million) <= den
Differs(x, j) ==    \* x: score, frequency, feature proportion, eojeol proportion, positive features, their share
  IF ~Near(x[1], j.num, Den(j.norm)) THEN "score"
  ELSE IF x[2] # j.total THEN "frequency"
  ELSE IF ~NearRatio(x[3], Spread(j)[1], Spread(j)[2]) THEN "feature proportion"
  ELSE IF ~NearRatio(x[4], IF j.total = 0 THEN 0 ELSE j.whole, Den(j.total)) THEN "eojeol proportion"
  ELSE IF x[5] # j.npos THEN "number of positive features"
  ELSE IF ~NearRatio(x[6], j.npos, Den(j.nft)) THEN "share of positive features" ELSE ""
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "extract" ->
         IF Doubt THEN ""
         ELSE IF {x[1] : x \in SeqRange(E.nouns)} # DOMAIN out \/ Len(E.nouns) # Cardinality(DOMAIN out) THEN "the nouns"
         ELSE LET bad == {x \in SeqRange(E.nouns) : Differs(x[2], out[x[1]]) # ""}
              IN IF bad = {} THEN "" ELSE LET x == CHOOSE x \in bad : TRUE IN Differs(x[2], out[x[1]])
    [] E.op = "predict" -> Differs(E.got, J(E.w))
    [] OTHER -> ""
Expected ==
  CASE E.op = "extract" -> [nouns |-> ListOf({<<w, out[w]>> : w \in DOMAIN out})]
    [] E.op = "predict" -> [judge |-> J(E.w)]
    [] OTHER -> [op |-> E.op]
Begin == phase = "new" /\ Make(Conf, SeqRange(T.base)) /\ UNCHANGED <<t, c, on>>
Next ==
  \/ Begin
  \/ phase # "new" /\ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<nnvars, t>>
     /\ IF Clause = "" THEN c' = (IF E.op = "extract" /\ Doubt THEN Len(T.events) + 1 ELSE c + 1)
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<nnvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

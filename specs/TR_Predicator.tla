---------------------------- MODULE TR_Predicator ----------------------------
EXTENDS Predicator, TraceIO
VARIABLES t, c, on
vars == <<prvars, t, c, on>>
T == Trace[t]
E == T.events[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ on = FALSE /\ PrInit
SetOf(x) == SeqRange(x)
Conf == [josas |-> SetOf(T.josas), adjs |-> SetOf(T.adjs), verbs |-> SetOf(T.verbs), findends |-> T.findends, findstems |-> T.findstems]
PairsOf(x) == [w \in {y[1] : y \in SeqRange(x)} |-> (CHOOSE y \in SeqRange(x) : y[1] = w)[2]]
Counted == IF E.from = "sents" THEN CountWords(TokensOf(E.sents, T.norm), 15, E.minc) ELSE AtLeastCount(PairsOf(E.words), E.minc)
ArgsOf(e) == [from |-> IF e.given = <<>> THEN Offered(<<>>, e.minf) ELSE PairsOf(e.given)]
Step ==
  CASE E.op = "train" -> Train(Counted, E.a)
    [] E.op = "extract" -> ExtractAll(ArgsOf(E))
    [] OTHER -> UNCHANGED prvars
Shown(x) == {<<y[1], y[2], SeqRange(y[3])>> : y \in SeqRange(x)}
Want(p) == {<<w, args.from[w], p[w]>> : w \in DOMAIN p}
Same(x, p) == Shown(x) = Want(p) /\ Len(x) = Cardinality(Want(p))
Clause ==
  IF E.exc # "" THEN "the call raised"
  ELSE CASE E.op = "extract" ->
         IF unsure THEN ""
         ELSE IF ~Same(E.adjs, adjs) THEN "the adjectives"
         ELSE IF ~Same(E.verbs, verbs) THEN "the verbs"
         ELSE IF ~E.kept THEN "the sets given"
         ELSE ""
    [] OTHER -> ""
Expected ==
  CASE E.op = "extract" -> [adjs |-> ListOf({<<w, args.from[w], ListOf(adjs[w])>> : w \in DOMAIN adjs}),
                            verbs |-> ListOf({<<w, args.from[w], ListOf(verbs[w])>> : w \in DOMAIN verbs})]
    [] OTHER -> [op |-> E.op]
Begin == phase = "new" /\ Make(Conf, SetOf(T.nouns), SetOf(T.ends)) /\ UNCHANGED <<t, c, on>>
Next ==
  \/ Begin
  \/ phase # "new" /\ ~on /\ c <= Len(T.events) /\ Step /\ on' = TRUE /\ UNCHANGED <<t, c>>
  \/ /\ on /\ on' = FALSE /\ UNCHANGED <<prvars, t>>
     /\ IF Clause = "" THEN c' = c + 1
        ELSE RejectAt(t, c, E.op \o ": " \o Clause, Expected) /\ c' = 1000000
  \/ ~on /\ c = Len(T.events) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<prvars, t, on>>
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE TR_Distance ----------------------------
EXTENDS Distance, TraceIO
VARIABLES t, c
vars == <<dsvars, t, c>>
R == Trace[t]
Obs == R.calls[c]
Init == t \in 1..Len(Trace) /\ c = 1 /\ DsInit
Tab == [k \in {<<p[1], p[2]>> : p \in SeqRange(Obs.tab)} |->
          (CHOOSE p \in SeqRange(Obs.tab) : p[1] = k[1] /\ p[2] = k[2])[3]]
(* |got - dot / sqrt(a*b)| <= 1/1000, got in thousandths *)
CosineFits(got, u, v) ==
  LET a == Dot(u, u) * Dot(v, v)
      d == 1000 * Dot(u, v)
      lo == got - 1
      hi == got + 1
  IN (lo <= 0 \/ lo * lo * a <= d * d) /\ hi >= 0 /\ d * d <= hi * hi * a
Expected ==
  CASE Obs.op = "lev" -> Levenshtein(Obs.s1, Obs.s2, Tab, 16)
    [] Obs.op = "jamo" -> JamoLevenshtein(Obs.s1, Obs.s2)
    [] OTHER -> 0
Clause ==
  LET u == Units(Obs.s1, Obs.n)
      v == Units(Obs.s2, Obs.n)
      empty == Obs.s1 = <<>> \/ Obs.s2 = <<>>
  IN IF Obs.exc # "" THEN "the call raised"
  ELSE CASE Obs.op \in {"lev", "jamo"} -> IF Obs.got = Expected THEN "" ELSE "edit distance"
    [] Obs.op = "cosine" ->
         IF empty THEN IF Obs.got = -1000 THEN "" ELSE "cosine distance to an empty string"
         ELSE IF CosineFits(Obs.got, u, v) THEN "" ELSE "cosine distance"
    [] Obs.op = "jaccard" ->
         IF empty THEN IF Obs.got = 1 /\ Obs.den = 1 THEN "" ELSE "Jaccard distance to an empty string"
         ELSE IF Obs.got * Either(u, v) = (Either(u, v) - Both(u, v)) * Obs.den THEN "" ELSE "Jaccard distance"
Next ==
  \/ /\ c <= Len(R.calls) /\ UNCHANGED <<dsvars, t>>
     /\ IF Clause = "" THEN c' = c + 1 ELSE RejectAt(t, c, Clause, Expected) /\ c' = 1000000
  \/ c = Len(R.calls) + 1 /\ Accept(t) /\ c' = c + 1 /\ UNCHANGED <<dsvars, t>>
Spec == Init /\ [][Next]_vars
=============================================================================

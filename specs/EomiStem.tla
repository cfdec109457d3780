------------------------------ MODULE EomiStem ------------------------------
(* EomiExtractor and StemExtractor at work on a graph of eojeols.            *)
EXTENDS PredParts
VARIABLES rel, origin,
          stems, nouns, ends,    \* known parts
          args,                  \* of the running extraction
          todo, seen,            \* parts to judge, judgements
          got,                   \* result: part -> weighted mean
          phase
esvars == <<rel, origin, stems, nouns, ends, args, todo, seen, got, phase>>
EsInit == rel = NoRel /\ origin = NoRel /\ stems = {} /\ nouns = {} /\ ends = {} /\ args = <<>> /\ todo = {} /\ seen = <<>>
          /\ got = <<>> /\ phase = "new"
Load(R, s, n, e) == phase = "new" /\ rel' = R /\ origin' = R /\ stems' = s /\ nouns' = n /\ ends' = e /\ phase' = "idle"
                    /\ UNCHANGED <<args, todo, seen, got>>
(* a: what, q, minf, nmin, cond | what, q, minf, umin, hmin, ignore *)
Cuts == KnownCuts(origin, stems, ends)
KL == {p[1] : p \in Cuts}
KR == {p[2] : p \in Cuts}
Start(a) ==
  /\ phase = "idle" /\ args' = a /\ seen' = <<>> /\ got' = <<>> /\ phase' = a.what
  /\ todo' = IF a.what = "eomi" THEN EomiCandidates(rel, Forms(stems), a.cond)
             ELSE StemCandidates(rel, KL, KR, a.ignore, a.minf)
  /\ UNCHANGED <<rel, origin, stems, nouns, ends>>
EomiOne(r) ==
  /\ phase = "eomi" /\ r \in Longest(todo)
  /\ LET S == Forms(stems)  j == JudgeEomi(rel, S, nouns, r, args.q, args.nmin)
     IN /\ seen' = seen @@ (r :> j)
        /\ rel' = IF AtLeast(j.score, args.q) THEN AfterEomi(rel, S, nouns, {r}) ELSE rel
  /\ todo' = todo \ {r} /\ UNCHANGED <<origin, stems, nouns, ends, args, got, phase>>
EomiEnd ==
  /\ phase = "eomi" /\ todo = {} /\ rel' = origin
  /\ got' = LET m == Endings(origin, stems, seen, args.q) IN [e \in Kept(m, args.q, args.minf) |-> m[e]]
  /\ phase' = "idle" /\ UNCHANGED <<origin, stems, nouns, ends, args, todo, seen>>
StemOne(l) ==
  /\ phase = "stem" /\ l \in todo
  /\ LET j == JudgeStem(rel, KL, KR, l, args.q, args.minf, args.umin, args.hmin)
     IN seen' = IF Taken(j, args.q, args.minf) THEN seen @@ (l :> j) ELSE seen
  /\ todo' = todo \ {l} /\ UNCHANGED <<rel, origin, stems, nouns, ends, args, got, phase>>
StemEnd ==
  /\ phase = "stem" /\ todo = {}
  /\ LET f == [l \in {l \in DOMAIN seen : ~Spurious(KL, KR, DOMAIN seen, l)} |-> seen[l]]
     IN seen' = f /\ got' = Stems(rel, ends, f)
  /\ phase' = "idle" /\ UNCHANGED <<rel, origin, stems, nouns, ends, args, todo>>
(* the same in one step, for replay *)
ExtractEomi(a) ==
  LET j == JudgeEomis(rel, Forms(stems), nouns, EomiCandidates(rel, Forms(stems), a.cond), a.q, a.nmin, <<>>)
      m == Endings(origin, stems, j, a.q)
  IN phase = "idle" /\ args' = a /\ seen' = j /\ got' = m /\ rel' = origin /\ UNCHANGED <<origin, stems, nouns, ends, todo, phase>>
ExtractStem(a) ==
  LET f == ExtractStems(rel, KL, KR, a.ignore, a.q, a.minf, a.umin, a.hmin)
  IN phase = "idle" /\ args' = a /\ seen' = f /\ got' = Stems(rel, ends, f) /\ UNCHANGED <<rel, origin, stems, nouns, ends, todo, phase>>

-----------------------------------------------------------------------------
Done == phase = "idle" /\ "what" \in DOMAIN args
DoneE == Done /\ args.what = "eomi"
DoneS == Done /\ args.what = "stem"
Restored == Done => rel = origin
ScoresWithin == \A k \in DOMAIN seen : Abs(seen[k].score.num) <= seen[k].score.den
Eojeols == {k[1] \o k[2] : k \in DOMAIN origin}
(* every ending found belongs, with a known stem, to an eojeol of the graph *)
EndingsOccur == DoneE => \A e \in DOMAIN got : \E w \in Eojeols, s \in stems : w \in C!Conj(s, e, FALSE)
EndingsBounded == DoneE => \A e \in DOMAIN got : got[e].n >= args.minf /\ MeanOver(got[e], args.q) /\ MeanOf(got[e]) <= Million
(* every stem found belongs, with a known ending, to an eojeol of the graph *)
StemsOccur == DoneS => \A s \in DOMAIN got : \E w \in Eojeols, e \in ends : w \in C!Conj(s, e, FALSE)
StemSurfaces == DoneS => \A l \in DOMAIN seen : /\ l \notin KL \cup KR \cup args.ignore /\ Len(l) > 1
                                                /\ \A m \in DOMAIN seen : m = l \/ ~StartsWith(l, m)
EomiOrderFree == DoneE => /\ seen = JudgeEomis(origin, Forms(stems), nouns, EomiCandidates(origin, Forms(stems), args.cond), args.q, args.nmin, <<>>)
                          /\ LET m == Endings(origin, stems, seen, args.q) IN got = [e \in Kept(m, args.q, args.minf) |-> m[e]]
StemOrderFree == DoneS => seen = ExtractStems(origin, KL, KR, args.ignore, args.q, args.minf, args.umin, args.hmin)
=============================================================================

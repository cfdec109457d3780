----------------------------- MODULE PredParts -----------------------------
(* How endings and stems are judged by the known parts they occur with.      *)
(* Thresholds are <<numerator, denominator>>, scores [num, den]; weighted    *)
(* means are in millionths.                                                  *)
EXTENDS LRRel, Entropy
C == INSTANCE Conjugation WITH req <- <<>>, out <- {}, step <- ""
Million == 1000000

AtLeast(x, q) == x.num * q[2] >= q[1] * x.den
Zero == [num |-> 0, den |-> 1]
Ratio(pos, neg) == IF pos + neg = 0 THEN Zero ELSE [num |-> pos - neg, den |-> pos + neg]
Forms(stems) == UNION {C!StemForms(s) : s \in stems}
(* only complete syllables can be taken apart *)
Odd(s, e) == /\ Len(s) >= 2 /\ C!Last(s) = C!sREU /\ ~C!IsSyllable(s[Len(s) - 1])
             /\ e # <<>> /\ C!IsSyllable(e[1]) /\ C!Letters(e[1])[1] = C!O /\ C!Letters(e[1])[2] \in {C!vA, C!vEO}
Lemmas(l, r) == IF C!IsSyllable(C!Last(l)) /\ (r = <<>> \/ C!IsSyllable(r[1])) /\ \A p \in C!Inverse(l, r) : ~Odd(p[1], p[2])
                THEN C!Lemmas(l, r, <<>>) ELSE {}
(* those with the stem or ending known, found without looking at others *)
LemmasAmong(l, r, known(_)) ==
  IF C!IsSyllable(C!Last(l)) /\ (r = <<>> \/ C!IsSyllable(r[1]))
  THEN LET i == C!Inverse(l, r)  k == {p \in i : known(p)}
       IN IF k = {} \/ \E p \in i : Odd(p[1], p[2]) THEN {} ELSE C!Verified(l, r, k)
  ELSE {}
Suffixes(w) == {SubSeq(w, i, Len(w)) : i \in 2..Len(w)}        \* proper ones
Prefixes(w) == {SubSeq(w, 1, i) : i \in 1..(Len(w) - 1)}
WeightR(R, r, S) == FoldSet(LAMBDA l, a : a + R[<<l, r>>], 0, S)
(* the eojeols ending in one of the right parts, all of one length, whose left part is ok *)
ConsumeRight(R, rs, ok(_)) ==
  LET used(k) == LET x == k[1] \o k[2]
                     ps == {r \in rs : Len(r) < Len(x) /\ EndsWith(x, r)}
                 IN IF ps = {} THEN 0
                    ELSE LET r == CHOOSE r \in ps : TRUE  l == SubSeq(x, 1, Len(x) - Len(r))
                         IN IF <<l, r>> \in DOMAIN R /\ ok(l) THEN R[<<l, r>>] ELSE 0
  IN [k \in {k \in DOMAIN R : R[k] > used(k)} |-> R[k] - used(k)]

(* a weighted mean being built: n the weight, hi and lo the weighted sum in
   units and millionths, sure FALSE when rounding may move it across a
   threshold it equals; every step within 32 bits *)
Millionths(num, den) ==
  (num \div den) * Million + (((num % den) * 1000) \div den) * 1000 + (((((num % den) * 1000) % den) * 1000) \div den)
Exact(x) == (((x.num % x.den) * 1024) % x.den) = 0 /\ (((((x.num % x.den) * 1000) % x.den) * 1000) % x.den) = 0
AddMean(m, c, x) ==
  LET v == Millionths(x.num, x.den)
      th == c * (v \div 1000)              \* thousandths
      lo == m.lo + (th % 1000) * 1000 + c * (v % 1000)
  IN [n |-> m.n + c, hi |-> m.hi + th \div 1000 + lo \div Million, lo |-> lo % Million, sure |-> m.sure /\ Exact(x)]
NoMean == [n |-> 0, hi |-> 0, lo |-> 0, sure |-> TRUE]
MeanOf(m) ==
  LET a == (m.hi % m.n) * 1000 + m.lo \div 1000
  IN (m.hi \div m.n) * Million + (a \div m.n) * 1000 + (((a % m.n) * 1000 + (m.lo % 1000)) \div m.n)
MeanNear(m, q) == Abs(MeanOf(m) - (q[1] * Million) \div q[2]) <= 2
MeanOver(m, q) == MeanOf(m) >= (q[1] * Million) \div q[2]
(* terms: set of <<key, tag, count, score>> *)
Means(terms) ==
  LET keys == {x[1] : x \in terms}
  IN [k \in keys |-> FoldSet(LAMBDA x, m : AddMean(m, x[3], x[4]), NoMean, {x \in terms : x[1] = k})]

-----------------------------------------------------------------------------
(* endings *)
LongerForm(S, l, r) == \E i \in 1..Len(r) : (l \o SubSeq(r, 1, i)) \in S
NounForm(S, N, l) == SubSeq(l, 1, 1) \in N /\ Tail(l) \in S
Reached(S, N, l) == l \in S \/ NounForm(S, N, l)
EomiCandidates(R, S, cond) == {r \in UNION {Rights(R, l) : l \in S} : EndsWith(r, cond)}
JudgeEomi(R, S, N, r, q, nmin) ==
  LET all == IF r = <<>> THEN {} ELSE {l \in LeftsOf(R, r) : ~LongerForm(S, l, r)}
      ls == {l \in all : (l \o r) \notin N}
      plus == {l \in ls : Reached(S, N, l)}
      open == {l \in ls \ plus : \E x \in Suffixes(l) : x \in S}
      pos == WeightR(R, r, plus)
      unk == WeightR(R, r, open)
      neg == WeightR(R, r, ls \ (plus \cup open))
      score == Ratio(pos, neg)
  IN IF Cardinality(all \cap S) >= nmin
     THEN [score |-> score, support |-> (IF AtLeast(score, q) THEN pos ELSE neg) + unk]
     ELSE [score |-> Zero, support |-> 0]
(* longer endings take their eojeols first *)
AfterEomi(R, S, N, good) == LET ok(l) == Reached(S, N, l) IN ConsumeRight(R, good, ok)
RECURSIVE JudgeEomis(_, _, _, _, _, _, _)
JudgeEomis(R, S, N, W, q, nmin, acc) ==
  IF W = {} THEN acc
  ELSE LET now == Longest(W)
           j == [r \in now |-> JudgeEomi(R, S, N, r, q, nmin)]
           good == {r \in now : AtLeast(j[r].score, q)}
       IN JudgeEomis(AfterEomi(R, S, N, good), S, N, W \ now, q, nmin, acc @@ j)
(* the canonical endings of the accepted ones *)
Canonical(R, stems, accepted, judged) ==
  Means({<<p[2], <<p[1], l, r>>, R[<<l, r>>], judged[r].score>> :
           <<l, r, p>> \in LET ok(p) == p[1] \in stems IN UNION {UNION {{<<l, r, p>> : p \in LemmasAmong(l, r, ok)} : l \in LeftsOf(R, r)}
                                  : r \in accepted}})
Accepted(judged, q) == {r \in DOMAIN judged : r # <<>> /\ AtLeast(judged[r].score, q)}
Endings(R, stems, judged, q) == Canonical(R, stems, Accepted(judged, q), judged)
Kept(means, q, minf) == {e \in DOMAIN means : means[e].n >= minf /\ MeanOver(means[e], q)}
(* membership that rounding decides *)
Doubt(means, q, minf) == {e \in DOMAIN means : means[e].n >= minf /\ ~means[e].sure /\ MeanNear(means[e], q)}

-----------------------------------------------------------------------------
(* stems *)
Josa == {<<44144, 45208>>, <<44172>>, <<44172, 45716>>, <<44172, 46020>>, <<44256>>, <<44256, 46020>>, <<44256, 47564>>,
         <<45716>>, <<45796>>, <<45796, 44032>>, <<49436, 45716>>, <<50500>>, <<51008>>}
(* eojeols of the graph that known stems and endings give, cut at the length of the stem *)
KnownCuts(R, stems, ends) ==
  LET X == {k[1] \o k[2] : k \in DOMAIN R}
  IN UNION {UNION {{<<SubSeq(w, 1, Len(s)), SubSeq(w, Len(s) + 1, Len(w))>> :
                      w \in {w \in C!Conj(s, e, FALSE) : w \in X /\ Len(w) > Len(s)}} : e \in ends} : s \in stems}
IsPredicator(KL, KR, r) == \E i \in 1..(Len(r) - 1) : SubSeq(r, 1, i) \in KL /\ SubSeq(r, i + 1, Len(r)) \in KR
LongerEnd(KR, l, r) == \E i \in 1..Len(l) : (SubSeq(l, i, Len(l)) \o r) \in KR
StemCandidates(R, KL, KR, ignore, minf) ==
  {l \in {k[1] : k \in DOMAIN R} :
     /\ l \notin KL /\ l \notin ignore /\ l \notin KR
     /\ Len(l) > 1 /\ l[Len(l)] # C!sDA
     /\ LET rs == {r \in Rights(R, l) : r \in KR} IN rs # {} /\ Weight(R, l, rs) >= minf}
FirstChars(R, l) == {r[1] : r \in Rights(R, l) \ {<<>>}}
JudgeStem(R, KL, KR, l, q, minf, umin, hmin) ==
  LET rs == Rights(R, l) \ Josa
      plus == rs \cap KR
      minus == {r \in rs \ plus : r = <<>> \/ IsPredicator(KL, KR, r) \/ LongerEnd(KR, l, r)}
      pos == Weight(R, l, plus)
      neg == Weight(R, l, minus)
      unk == Weight(R, l, rs \ (plus \cup minus))
      score == Ratio(pos, neg)
      freq == IF AtLeast(score, q) THEN pos ELSE neg + unk
      sole == {r \in plus : ~IsPredicator(KL, KR, r) /\ ~LongerEnd(KR, l, r)}
  IN IF Cardinality(FirstChars(R, l)) < umin \/ Entropy([r \in sole |-> R[<<l, r>>]]) < hmin - EntropyError
     THEN [score |-> Zero, freq |-> 0]
     ELSE IF freq < minf THEN [score |-> Zero, freq |-> freq] ELSE [score |-> score, freq |-> freq]
Taken(j, q, minf) == AtLeast(j.score, q) /\ j.freq >= minf
(* a proposed stem that is a stem with an ending, or begins with another proposed stem *)
Spurious(KL, KR, found, l) ==
  \/ \E i \in 1..(Len(l) - 1) : /\ SubSeq(l, 1, i) \in KL \cup found
                                /\ \E j \in (i + 1)..Len(l) : SubSeq(l, i + 1, j) \in KR
  \/ \E i \in 2..(Len(l) - 1) : SubSeq(l, 1, i) \in found
Stems(R, ends, found) ==       \* found: left part -> [score, freq]
  Means({<<p[1], <<l, r, p[2]>>, found[l].freq, found[l].score>> :
           <<l, r, p>> \in LET ok(p) == p[2] \in ends IN UNION {UNION {{<<l, r, p>> : p \in LemmasAmong(l, r, ok)} : r \in Rights(R, l)}
                                  : l \in DOMAIN found}})
ExtractStems(R, KL, KR, ignore, q, minf, umin, hmin) ==
  LET j == [l \in StemCandidates(R, KL, KR, ignore, minf) |-> JudgeStem(R, KL, KR, l, q, minf, umin, hmin)]
      found == {l \in DOMAIN j : Taken(j[l], q, minf)}
  IN [l \in {l \in found : ~Spurious(KL, KR, found, l)} |-> j[l]]
=============================================================================

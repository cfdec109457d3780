------------------------------- MODULE NounV1 -------------------------------
(* LRNounExtractor: nouns by the weighted mean of the coefficients of the    *)
(* right parts that follow them.  Coefficients are in millionths.            *)
EXTENDS LRRel

VARIABLES cf,      \* lmax, rmax, minf, norm (text is taken as normalized)
          coef,    \* right part -> coefficient
          rel, origin,
          sub,     \* frequent left part -> count
          found,   \* word -> [num, den, kn, kd]: score num / den in millionths, share kn / kd of known right parts
          freq,    \* noun -> eojeols left to it
          args, todo, phase
n1vars == <<cf, coef, rel, origin, sub, found, freq, args, todo, phase>>
N == INSTANCE Normalizer WITH txt <- <<>>, todo <- <<>>, wordy <- {}
Million == 1000000

TokensOf(c, ss) ==
  Concat([i \in 1..Len(ss) |-> SplitWhite(IF c.norm THEN ss[i] ELSE N!Apply("normalize_sent_for_lrgraph", <<>>, {}, ss[i]))])
CountIn(ws, w) == Cardinality({i \in 1..Len(ws) : ws[i] = w})
SubCounts(ws, keysOf(_), m) ==
  LET W == SeqRange(ws)
      n == [w \in W |-> CountIn(ws, w)]
      K == UNION {keysOf(w) : w \in W}
      sum(k) == FoldSet(LAMBDA w, a : a + IF k \in keysOf(w) THEN n[w] ELSE 0, 0, W)
      g == [k \in K |-> sum(k)]
  IN [k \in {k \in K : g[k] >= m} |-> g[k]]
LeftCounts(c, ws, m) == LET keys(w) == {SubSeq(w, 1, i) : i \in 1..Min2(c.lmax, Len(w))} IN SubCounts(ws, keys, m)
RightKeys(c, w) == {SubSeq(w, Len(w) - i + 1, Len(w)) : i \in 1..Min2(c.rmax, Len(w) - 1)}
RightCounts(c, ws, m) == LET keys(w) == RightKeys(c, w) IN SubCounts(ws, keys, m)
RelFor(c, ws, m) ==
  LET L == DOMAIN LeftCounts(c, ws, m)  R == DOMAIN RightCounts(c, ws, m)
      W == SeqRange(ws)
      keys == {p \in UNION {Splits(w) : w \in W} : Len(p[1]) <= c.lmax /\ p[1] \in L /\ (p[2] = <<>> \/ p[2] \in R)}
  IN [k \in keys |-> CountIn(ws, k[1] \o k[2])]

Reaches(x, q) == x.num * q[2] >= q[1] * Million * x.den
FromCoef(v) == [num |-> v, den |-> 1, kn |-> 0, kd |-> 1]
(* lexicographic: score, then share *)
More(x, y) == \/ x.num * y.den > y.num * x.den
              \/ x.num * y.den = y.num * x.den /\ x.kn * y.kd > y.kn * x.kd
Over(v, q) == v * q[2] > q[1] * Million
(* a word without enough right parts: a compound of two nouns, or noun and right part *)
SubScore(F, P, w, q) ==
  LET cut(e) == <<SubSeq(w, 1, e), SubSeq(w, e + 1, Len(w))>>
      both == {e \in 1..(Len(w) - 1) : cut(e)[1] \in DOMAIN P /\ cut(e)[2] \in DOMAIN P}
      josa == {e \in 1..(Len(w) - 1) : cut(e)[1] \in DOMAIN P /\ cut(e)[2] \notin DOMAIN P /\ Over(Get(F, cut(e)[2], 0), q)}
      value(e) == IF e \in both THEN LET x == P[cut(e)[1]]  y == P[cut(e)[2]] IN IF More(y, x) THEN y ELSE x
                  ELSE FromCoef(F[cut(e)[2]])
      es == both \cup josa
      best(e) == \A d \in es : LET x == value(e)  y == value(d)
                                IN x.num * y.den > y.num * x.den \/ (x.num * y.den = y.num * x.den /\ e <= d)
  IN IF es = {} THEN [num |-> 0, den |-> 1, kn |-> 0, kd |-> 1] ELSE value(CHOOSE e \in es : best(e))
Longer(F, w, r) == \E i \in 1..Len(w) : (SubSeq(w, i, Len(w)) \o r) \in DOMAIN F
Judge(F, c, R, P, w, q) ==
  LET rs == Rights(R, w) \ {<<>>}
      known == {r \in rs : r \in DOMAIN F /\ ~Longer(F, w, r)}
      kn == Weight(R, w, known)
      un == Weight(R, w, {r \in rs : r \notin DOMAIN F})
  IN IF Cardinality(rs) > c.minf
     THEN [num |-> IF kn = 0 THEN 0 ELSE FoldSet(LAMBDA r, a : a + R[<<w, r>>] * F[r], 0, known),
           den |-> IF kn = 0 THEN 1 ELSE kn, kn |-> kn, kd |-> IF kn + un = 0 THEN 1 ELSE kn + un]
     ELSE SubScore(F, P, w, q)
Shortest(W) == LET n == FoldSet(LAMBDA w, a : Min2(Len(w), a), 100000, W) IN {w \in W : Len(w) = n}
RECURSIVE JudgeAll(_, _, _, _, _, _)
JudgeAll(F, c, R, W, q, P) ==
  IF W = {} THEN P
  ELSE LET now == Shortest(W)
           p == [w \in now |-> Judge(F, c, R, P, w, q)]
       IN JudgeAll(F, c, R, W \ now, q, P @@ [w \in {w \in now : Reaches(p[w], q)} |-> p[w]])

(* the n-th root of count / count of first character does not fall with the
   last character: a^(n-2) * base >= b^(n-1) *)
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
Holds(S, w) ==
  LET n == Len(w)  b0 == Get(S, SubSeq(w, 1, 1), 0)  a == Get(S, w, 0)  b == Get(S, SubSeq(w, 1, n - 1), 0)
  IN b0 = 0 \/ Power(a, n - 2) * b0 >= Power(b, n - 1)
(* equal roots of unequal numbers may be told apart by rounding *)
Shaky(S, w) ==
  LET n == Len(w)  b0 == Get(S, SubSeq(w, 1, 1), 0)  a == Get(S, w, 0)  b == Get(S, SubSeq(w, 1, n - 1), 0)
  IN n > 2 /\ b0 # 0 /\ a > 0 /\ ~(a = b /\ b = b0) /\ Power(a, n - 2) * b0 = Power(b, n - 1)
Dropped(F, S, P, q) ==
  {w \in DOMAIN P :
     \/ w[Len(w)] \in {46, 44}
     \/ Len(w) > 2 /\ ~Holds(S, w)
        /\ \E e \in 2..(Len(w) - 1) : SubSeq(w, 1, e) \in DOMAIN P /\ Over(Get(F, SubSeq(w, e + 1, Len(w)), 0), q)}
(* frequencies: longer nouns take their eojeols first *)
RECURSIVE Shares(_, _, _)
Shares(R, W, acc) ==
  IF W = {} THEN acc
  ELSE LET now == Longest(W)
       IN Shares(Consume(R, now, AnyR), W \ now, acc @@ [w \in now |-> Weight(R, w, Rights(R, w))])
WithoutKeys(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Candidates(a) == {w \in a.words : Len(w) > 1}

N1Init == cf = <<>> /\ coef = <<>> /\ rel = NoRel /\ origin = NoRel /\ sub = <<>> /\ found = <<>> /\ freq = <<>>
          /\ args = <<>> /\ todo = {} /\ phase = "new"
Make(c, F) == phase = "new" /\ cf' = c /\ coef' = F /\ phase' = "idle" /\ UNCHANGED <<rel, origin, sub, found, freq, args, todo>>
Train(ss, m) ==
  LET ws == TokensOf(cf, ss)  R == RelFor(cf, ws, m) IN
  /\ phase = "idle" /\ rel' = R /\ origin' = R /\ sub' = LeftCounts(cf, ws, m)
  /\ UNCHANGED <<cf, coef, found, freq, args, todo, phase>>
Start(a) == phase = "idle" /\ args' = a /\ todo' = Candidates(a) /\ found' = <<>> /\ phase' = "predict"
            /\ UNCHANGED <<cf, coef, rel, origin, sub, freq>>
PredictOne(w) ==
  /\ phase = "predict" /\ w \in Shortest(todo)
  /\ LET p == Judge(coef, cf, rel, found, w, args.min) IN found' = IF Reaches(p, args.min) THEN found @@ (w :> p) ELSE found
  /\ todo' = todo \ {w} /\ UNCHANGED <<cf, coef, rel, origin, sub, freq, args, phase>>
Discard ==
  /\ phase = "predict" /\ todo = {}
  /\ found' = WithoutKeys(found, Dropped(coef, sub, found, args.min))
  /\ freq' = <<>> /\ todo' = DOMAIN found' /\ phase' = "share" /\ UNCHANGED <<cf, coef, rel, origin, sub, args>>
ShareOne(w) ==
  /\ phase = "share" /\ w \in Longest(todo)
  /\ freq' = freq @@ (w :> Weight(rel, w, Rights(rel, w))) /\ rel' = Consume(rel, {w}, AnyR)
  /\ todo' = todo \ {w} /\ UNCHANGED <<cf, coef, origin, sub, found, args, phase>>
Finish == phase = "share" /\ todo = {} /\ rel' = origin /\ phase' = "idle" /\ UNCHANGED <<cf, coef, origin, sub, found, freq, args, todo>>
ExtractAll(a) ==
  LET all == JudgeAll(coef, cf, rel, Candidates(a), a.min, <<>>)
      P == WithoutKeys(all, Dropped(coef, sub, all, a.min))
  IN /\ phase = "idle" /\ args' = a /\ found' = P /\ freq' = Shares(rel, DOMAIN P, <<>>) /\ rel' = origin
     /\ UNCHANGED <<cf, coef, origin, sub, todo, phase>>

-----------------------------------------------------------------------------
Done == phase = "idle" /\ "min" \in DOMAIN args
SameKeys == Done => DOMAIN found = DOMAIN freq
LongEnough == \A w \in DOMAIN found : Len(w) > 1 /\ Reaches(found[w], args.min)
Restored == Done => rel = origin
SharesBounded == Done => \A w \in DOMAIN freq : freq[w] >= 0 /\ freq[w] <= Get(sub, w, 0)
Repeatable == Done => found = LET all == JudgeAll(coef, cf, rel, Candidates(args), args.min, <<>>)
                              IN WithoutKeys(all, Dropped(coef, sub, all, args.min))
OrderFree == Done => freq = Shares(origin, DOMAIN found, <<>>)
MeanWithin == \A w \in DOMAIN found : found[w].num <= Million * found[w].den /\ found[w].kn <= found[w].kd
=============================================================================

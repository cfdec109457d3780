------------------------------- MODULE MaxLR -------------------------------
(* MaxLRScoreTokenizer: an eojeol is explained by non-overlapping pairs of a *)
(* known L and an optional known R; the rest is segmented on the R table.    *)
(* Scores and thresholds are integers in units of 1/160.                     *)
EXTENDS GreedySeg
VARIABLES
  par,      \* [dl, dr, pl, pr: tables; diff, ratio, ensl, ensd: thresholds]
  queue,    \* eojeols still to be explained
  cur,      \* the eojeol at hand
  cand,     \* candidates in the order they will be looked at:
            \*   <<begin, end of L, end of R, score of L, score of R>>
  kept,     \* candidates that passed the stage
  picks,    \* pairs chosen
  phase,    \* "idle", "subset", "score", "pick"
  out       \* finished eojeols: sequences of entries
mvars == <<par, queue, cur, cand, kept, picks, phase, out>>
Unit == 160

(* a preferred word not in the table is known with score 1 *)
WithPrefs(d, p) == [w \in DOMAIN d \cup DOMAIN p |-> Get(d, w, Unit)]
LOf(c) == Slice(cur, c[1], c[2])
ROf(c) == Slice(cur, c[2], c[3])
LenL(c) == c[2] - c[1]
LenR(c) == c[3] - c[2]
LMax == IF DOMAIN par.dl = {} THEN 0 ELSE LET S == {Len(w) : w \in DOMAIN par.dl} IN CHOOSE m \in S : \A x \in S : x <= m
RMax == IF DOMAIN par.dr = {} THEN 0 ELSE LET S == {Len(w) : w \in DOMAIN par.dr} IN CHOOSE m \in S : \A x \in S : x <= m
Pairs(w) ==
  LET n == Len(w)
      lefts == {s \in {<<b, e>> : b \in 0..n, e \in 1..n} :
                  s[1] < s[2] /\ s[2] - s[1] <= LMax /\ Slice(w, s[1], s[2]) \in DOMAIN par.dl}
      pairs == {<<s[1], s[2], p>> : s \in lefts, p \in 0..n}
      legal == {p \in pairs : /\ p[3] >= p[2] /\ p[3] - p[2] <= RMax
                              /\ ~(p[2] - p[1] = 1 /\ p[3] = p[2])
                              /\ (p[3] = p[2] \/ Slice(w, p[2], p[3]) \in DOMAIN par.dr)}
  IN {<<p[1], p[2], p[3], par.dl[Slice(w, p[1], p[2])], Get(par.dr, Slice(w, p[2], p[3]), 0)>> : p \in legal}

(* the orders candidates are looked at: smaller key first *)
KeySubset(c) == <<-c[4], c[3], c[1], c[2]>>
KeyScore(c) == <<-c[4], -c[5], c[1], -LenL(c), c[3]>>
Pref(f, w) == Get(f, w, 0)
Total(c) == (IF LenR(c) = 0 THEN 2 * c[4] ELSE c[4] + c[5]) + Pref(par.pl, LOf(c)) + Pref(par.pr, ROf(c))
KeyPick(c) == <<-Total(c)>> \o KeyScore(c)

(* L of d strictly covers L of c and scores nearly as well *)
Contains(d, c) == d[1] <= c[1] /\ d[2] >= c[2] /\ <<d[1], d[2]>> # <<c[1], c[2]>>
BelowRatio(a, b) == LET x == Unit * a - par.ratio * b IN x < 0 \/ (x = 0 /\ par.ratio > Unit)
Beaten(c, d) == Contains(d, c) /\ (c[4] - d[4] < par.diff \/ (par.ensl < 2 * c[4] /\ BelowRatio(c[4], d[4])))
(* an R must not reach into an L that is strong or clearly better *)
Collides(c, S) ==
  \E d \in S : /\ d[1] >= c[2] /\ d[1] < c[3]
               /\ (par.ensl <= d[4] \/ d[4] + Pref(par.pl, LOf(d)) - c[5] > par.ensd)

Entry(l, r, b, m, e, sl, sr) == <<l, r, b, m, e, m - b, e - m, e - b, sl, sr>>
PairEntry(c) == Append(Entry(LOf(c), ROf(c), c[1], c[2], c[3], c[4], c[5]), Total(c))
SubEntries(b, e) ==
  LET toks == Segment(par.dr, 10, 0, Slice(cur, b, e))
  IN [i \in 1..Len(toks) |->
        LET w == toks[i][1] p == b + toks[i][2] q == b + toks[i][3]
        IN IF w \in DOMAIN par.dr THEN Entry(<<>>, w, p, p, q, 0, par.dr[w])
           ELSE Entry(w, <<>>, p, q, q, 0, 0)]
RECURSIVE FillFrom(_, _)
FillFrom(S, from) ==
  IF S = {} THEN IF from < Len(cur) THEN SubEntries(from, Len(cur)) ELSE <<>>
  ELSE LET f == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
       IN (IF f[1] > from THEN SubEntries(from, f[1]) ELSE <<>>)
          \o <<PairEntry(f)>> \o FillFrom(S \ {f}, f[3])

-----------------------------------------------------------------------------
Call(text) == /\ phase = "idle" /\ queue = <<>> /\ queue' = SplitWhite(text) /\ out' = <<>>
              /\ UNCHANGED <<par, cur, cand, kept, picks, phase>>
Take == /\ phase = "idle" /\ queue # <<>>
        /\ cur' = Head(queue) /\ queue' = Tail(queue)
        /\ cand' = SortBy(Pairs(Head(queue)), KeySubset) /\ kept' = {} /\ picks' = {}
        /\ phase' = "subset" /\ UNCHANGED <<par, out>>
Subset == /\ phase = "subset" /\ cand # <<>>
          /\ LET c == Head(cand) rest == SeqRange(Tail(cand))
             IN kept' = IF \E d \in rest : Beaten(c, d) THEN kept ELSE kept \cup {c}
          /\ cand' = Tail(cand) /\ UNCHANGED <<par, queue, cur, picks, phase, out>>
ScoreAll == /\ phase = "subset" /\ cand = <<>>
            /\ kept' = {c \in kept : ~Collides(c, kept)}
            /\ cand' = SortBy(kept', KeyPick)
            /\ phase' = "pick" /\ UNCHANGED <<par, queue, cur, picks, out>>
Pick == /\ phase = "pick" /\ cand # <<>>
        /\ picks' = picks \cup {Head(cand)}
        /\ LET c == Head(cand) IN cand' = SelectSeq(Tail(cand), LAMBDA d : ~(c[1] < d[3] /\ c[3] > d[1]))
        /\ UNCHANGED <<par, queue, cur, kept, phase, out>>
Fill == /\ phase = "pick" /\ cand = <<>>
        /\ out' = Append(out, FillFrom(picks, 0))
        /\ phase' = "idle" /\ kept' = {} /\ picks' = {} /\ cur' = <<>> /\ UNCHANGED <<par, queue, cand>>
Work == Take \/ Subset \/ ScoreAll \/ Pick \/ Fill
Finished == phase = "idle" /\ queue = <<>>

(* the short form: words with their tag *)
Tagged(es) == Concat([i \in 1..Len(es) |->
                 SelectSeq(<<<<es[i][1], "L">>, <<es[i][2], "R">>>>, LAMBDA x : x[1] # <<>>)])
-----------------------------------------------------------------------------
Lossless(text) == Finished =>
  [i \in 1..Len(out) |-> Concat([j \in 1..Len(Tagged(out[i])) |-> Tagged(out[i])[j][1]])] = SplitWhite(text)
Contiguous == \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) :
   /\ out[i][j][3] = IF j = 1 THEN 0 ELSE out[i][j - 1][5]
   /\ out[i][j][5] - out[i][j][3] = out[i][j][8] /\ out[i][j][8] > 0
KnownPairs == \A i \in 1..Len(out) : \A j \in 1..Len(out[i]) :
   (Len(out[i][j]) = 11) => /\ out[i][j][1] \in DOMAIN par.dl
                            /\ (out[i][j][2] = <<>> \/ out[i][j][2] \in DOMAIN par.dr)
=============================================================================

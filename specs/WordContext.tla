---------------------------- MODULE WordContext ----------------------------
(* Word-context matrix: words of a minimum frequency, and how often (or with *)
(* which weight) a context word stands at most `win' words away.             *)
EXTENDS Text, FiniteSetsExt

VARIABLES sents,   \* sentences (token sequences)
          win, mintf, dyn,
          phase,   \* "count", "scan", "done"
          at,      \* <<sentence, position>> reached
          freq,    \* word -> occurrences so far
          cells    \* <<word, context>> -> weight (in units of 1/win when dyn)
wcvars == <<sents, win, mintf, dyn, phase, at, freq, cells>>

Bump(f, k, c) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + c] ELSE f @@ (k :> c)
Freq(ss, w) == SumSeq([i \in 1..Len(ss) |-> Cardinality({j \in 1..Len(ss[i]) : ss[i][j] = w})])
Words(ss) == UNION {SeqRange(ss[i]) : i \in 1..Len(ss)}
Frequent(ss, m) == {w \in Words(ss) : Freq(ss, w) >= m}
Weight(w, d, k) == IF d THEN w - (k - 1) ELSE 1        \* at distance k
Admissible(order, ss, m) ==
  /\ SeqRange(order) = Frequent(ss, m) /\ Len(order) = Cardinality(SeqRange(order))
  /\ \A i \in 1..(Len(order) - 1) : Freq(ss, order[i]) >= Freq(ss, order[i + 1])
(* the matrix, as the set of <<word, context, weight>> *)
Cooccurrence(ss, w, d, x, y) ==
  SumSeq([i \in 1..Len(ss) |->
    FoldSet(LAMBDA p, acc : acc + Weight(w, d, Abs(p[1] - p[2])), 0,
            {p \in {j \in 1..Len(ss[i]) : ss[i][j] = x} \X {j \in 1..Len(ss[i]) : ss[i][j] = y} :
               p[1] # p[2] /\ Abs(p[1] - p[2]) <= w})])
Contexts(ss, w, d, m) ==
  {c \in {<<x, y, Cooccurrence(ss, w, d, x, y)>> : x \in Frequent(ss, m), y \in Frequent(ss, m)} : c[3] > 0}

-----------------------------------------------------------------------------
Begin(ss, w, m, d) ==
  /\ phase = "idle" /\ sents' = ss /\ win' = w /\ mintf' = m /\ dyn' = d
  /\ phase' = "count" /\ at' = <<1, 1>> /\ freq' = <<>> /\ cells' = <<>>
Word == sents[at[1]][at[2]]
Advance == at' = IF at[2] < Len(sents[at[1]]) THEN <<at[1], at[2] + 1>> ELSE <<at[1] + 1, 1>>
Blank == at[1] <= Len(sents) /\ sents[at[1]] = <<>>
SkipBlank == phase \in {"count", "scan"} /\ Blank /\ at' = <<at[1] + 1, 1>>
             /\ UNCHANGED <<sents, win, mintf, dyn, phase, freq, cells>>
CountWord ==
  /\ phase = "count" /\ at[1] <= Len(sents) /\ ~Blank
  /\ freq' = Bump(freq, Word, 1) /\ Advance
  /\ UNCHANGED <<sents, win, mintf, dyn, phase, cells>>
StartScan == phase = "count" /\ at[1] > Len(sents) /\ phase' = "scan" /\ at' = <<1, 1>>
             /\ UNCHANGED <<sents, win, mintf, dyn, freq, cells>>
In(w) == w \in DOMAIN freq /\ freq[w] >= mintf
(* a word meets the words up to win before it: each pair is counted for both *)
Meet ==
  LET s == sents[at[1]]
      i == at[2]
      back == SelectSeq([k \in 1..win |-> k], LAMBDA k : i - k >= 1 /\ In(s[i]) /\ In(s[i - k]))
      RECURSIVE F(_, _)
      F(f, k) == IF k > Len(back) THEN f
                 ELSE LET v == Weight(win, dyn, back[k])
                          o == s[i - back[k]]
                      IN F(Bump(Bump(f, <<s[i], o>>, v), <<o, s[i]>>, v), k + 1)
  IN F(cells, 1)
ScanWord ==
  /\ phase = "scan" /\ at[1] <= Len(sents) /\ ~Blank
  /\ cells' = Meet /\ Advance
  /\ UNCHANGED <<sents, win, mintf, dyn, phase, freq>>
End == phase = "scan" /\ at[1] > Len(sents) /\ phase' = "done" /\ UNCHANGED <<sents, win, mintf, dyn, at, freq, cells>>
WcStep == SkipBlank \/ CountWord \/ StartScan \/ ScanWord \/ End
WcInit == sents = <<>> /\ win = 1 /\ mintf = 1 /\ dyn = FALSE /\ phase = "idle" /\ at = <<1, 1>>
          /\ freq = <<>> /\ cells = <<>>

Symmetric == \A k \in DOMAIN cells : <<k[2], k[1]>> \in DOMAIN cells /\ cells[<<k[2], k[1]>>] = cells[k]
IsContexts == phase = "done" =>
  {<<k[1], k[2], cells[k]>> : k \in DOMAIN cells} = Contexts(sents, win, dyn, mintf)
IsFrequent == phase \in {"scan", "done"} => {w \in DOMAIN freq : In(w)} = Frequent(sents, mintf)
(* at most two contexts per word and distance *)
Bounded == phase = "done" => FoldSet(LAMBDA k, acc : acc + cells[k], 0, DOMAIN cells)
   <= 2 * win * win * SumSeq([i \in 1..Len(sents) |-> Len(sents[i])])
=============================================================================

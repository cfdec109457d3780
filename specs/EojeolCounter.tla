--------------------------- MODULE EojeolCounter ---------------------------
(* Counting the eojeols of sentences, filtering, coverage, saving.           *)
EXTENDS Text, FiniteSetsExt
VARIABLES
  opt,      \* [min, max, every, map]: minimum count, maximum length,
            \* filtering checkpoint, preprocessing as a character map
  todo,     \* sentences not yet counted
  seen,     \* number of sentences counted
  cnt,      \* eojeol -> count
  total,    \* sum of the counts right after counting or loading
  cov,      \* coverage as <<numerator, denominator>>
  phase,    \* "count", "ready"
  files
ecvars == <<opt, todo, seen, cnt, total, cov, phase, files>>

SumOf(f) == FoldSet(LAMBDA k, a : f[k] + a, 0, DOMAIN f)
AtLeast(f, n) == [k \in {x \in DOMAIN f : f[x] >= n} |-> f[k]]
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Preprocess(s) == LET m == MkDict(opt.map) IN [i \in 1..Len(s) |-> Get(m, s[i], s[i])]
Occurrences(ws, w) == Cardinality({i \in 1..Len(ws) : ws[i] = w})
Short(w) == Len(w) <= opt.max

(* EojeolCounter(sents, ...) is called *)
StartCount(o, sents) ==
  /\ opt' = o /\ todo' = sents /\ seen' = 0 /\ cnt' = <<>> /\ phase' = "count"
  /\ UNCHANGED <<total, cov, files>>
CheckpointDue == seen > 0 /\ opt.every > 0 /\ opt.min > 1 /\ seen % opt.every = 0
CountSentence ==
  /\ phase = "count" /\ todo # <<>>
  /\ LET base == IF CheckpointDue THEN AtLeast(cnt, opt.min) ELSE cnt
         ws == SelectSeq(SplitWhite(Preprocess(Head(todo))), Short)
     IN cnt' = [w \in DOMAIN base \cup SeqRange(ws) |-> Get(base, w, 0) + Occurrences(ws, w)]
  /\ todo' = Tail(todo) /\ seen' = seen + 1
  /\ UNCHANGED <<opt, total, cov, phase, files>>
FinishCount ==
  /\ phase = "count" /\ todo = <<>>
  /\ cnt' = AtLeast(cnt, opt.min) /\ total' = SumOf(cnt') /\ cov' = <<0, 1>>
  /\ phase' = "ready" /\ UNCHANGED <<opt, todo, seen, files>>
RemoveCovered(S) ==
  /\ phase = "ready" /\ total > 0
  /\ cnt' = Without(cnt, S) /\ cov' = <<total - SumOf(cnt'), total>>
  /\ UNCHANGED <<opt, todo, seen, total, phase, files>>
SetCoverage(q) ==          \* q = <<n, d>>; outside [0, 1] it is refused
  /\ phase = "ready"
  /\ cov' = IF q[1] < 0 \/ q[1] > q[2] THEN cov ELSE q
  /\ UNCHANGED <<opt, todo, seen, cnt, total, phase, files>>
SaveTo(f) ==
  /\ phase = "ready" /\ files' = [k \in DOMAIN files \cup {f} |-> IF k = f THEN cnt ELSE files[k]]
  /\ UNCHANGED <<opt, todo, seen, cnt, total, cov, phase>>
LoadFrom(f) ==
  /\ phase = "ready" /\ f \in DOMAIN files
  /\ cnt' = files[f] /\ total' = SumOf(files[f]) /\ cov' = <<0, 1>>
  /\ UNCHANGED <<opt, todo, seen, phase, files>>

-----------------------------------------------------------------------------
CountsAreReal == phase = "ready" => \A w \in DOMAIN cnt : cnt[w] > 0 /\ w # <<>>
CoverageInRange == cov[1] >= 0 /\ cov[1] <= cov[2]
(* coverage is what was removed from what was counted *)
CoverageMeans == phase = "ready" => SumOf(cnt) <= total
(* without a checkpoint the counts are the exact numbers of occurrences *)
ExactCounts(sents) ==
  (phase = "ready" /\ opt.every = 0 /\ cov = <<0, 1>> /\ files = <<>>) =>
    LET ws == SelectSeq(Concat([i \in 1..Len(sents) |-> SplitWhite(Preprocess(sents[i]))]), Short)
    IN cnt = AtLeast([w \in SeqRange(ws) |-> Occurrences(ws, w)], opt.min)
=============================================================================

-------------------------------- MODULE Pmi --------------------------------
(* Pointwise mutual information of a count matrix.  The code takes the       *)
(* logarithm of P(x,y) / (P(x) (P(y) + alpha)); the specification computes   *)
(* that ratio exactly, as a fraction <<numerator, denominator>>.             *)
EXTENDS Text, FiniteSetsExt

(* m: the counts (sequence of rows); alpha in sixteenths *)
RowSum(m, i) == SumSeq(m[i])
ColSum(m, j) == SumSeq([i \in 1..Len(m) |-> m[i][j]])
Total(m) == SumSeq([i \in 1..Len(m) |-> RowSum(m, i)])
Root(n) == CHOOSE r \in 0..n : r * r = n
(* context weights: column sums, or the weights given; beta = 1/2 takes roots *)
Base(m, given) == IF given = <<>> THEN [j \in 1..Len(m[1]) |-> ColSum(m, j)] ELSE given
Weights(m, given, half) ==
  LET b == Base(m, given) IN IF half THEN [j \in 1..Len(b) |-> Root(b[j])] ELSE b
(* weights given may add up to less than their whole (unless normalized) *)
Whole(m, given, half, whole) ==
  IF half \/ given = <<>> THEN SumSeq(Weights(m, given, half)) ELSE whole
Ratio(m, w, W, a, i, j) == <<16 * m[i][j] * W, RowSum(m, i) * (16 * w[j] + a * W)>>
Less(p, q) == p[1] * q[2] < q[1] * p[2]
Same(p, q) == p[1] * q[2] = q[1] * p[2]

VARIABLES mat, giv, half, whole, alpha, least, stage, row, kept
pmvars == <<mat, giv, half, whole, alpha, least, stage, row, kept>>
PmInit == mat = <<>> /\ giv = <<>> /\ half = FALSE /\ whole = 0 /\ alpha = 0 /\ least = <<1, 1>>
          /\ stage = "idle" /\ row = 0 /\ kept = {}
Begin(m, g, h, wh, a, l) ==
  /\ stage = "idle" /\ mat' = m /\ giv' = g /\ half' = h /\ whole' = wh /\ alpha' = a /\ least' = l
  /\ stage' = "rows" /\ row' = 1 /\ kept' = {}
Wts == Weights(mat, giv, half)
Whl == Whole(mat, giv, half, whole)
(* one row: the positions whose ratio reaches the minimum; a ratio of one is
   a value of zero, which is what the other positions hold *)
DoRow ==
  /\ stage = "rows" /\ row <= Len(mat)
  /\ kept' = kept \cup {<<row, j, Ratio(mat, Wts, Whl, alpha, row, j)>> :
                         j \in {j \in 1..Len(mat[row]) :
                                  /\ mat[row][j] > 0 /\ Wts[j] > 0
                                  /\ ~Less(Ratio(mat, Wts, Whl, alpha, row, j), least)}}
  /\ row' = row + 1 /\ UNCHANGED <<mat, giv, half, whole, alpha, least, stage>>
Finish == stage = "rows" /\ row > Len(mat) /\ stage' = "done" /\ UNCHANGED <<mat, giv, half, whole, alpha, least, row, kept>>
PmStep == DoRow \/ Finish

Scaled(m, k) == [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> k * m[i][j]]]
Flipped(m) == [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
(* doubling all counts changes nothing; without smoothing the measure is symmetric *)
ScaleFree == (stage = "done" /\ giv = <<>> /\ ~half) =>
  \A x \in kept : Same(x[3], Ratio(Scaled(mat, 2), [j \in 1..Len(mat[1]) |-> 2 * Wts[j]], 2 * Whl, alpha, x[1], x[2]))
SymmetricMeasure == (stage = "done" /\ giv = <<>> /\ ~half /\ alpha = 0) =>
  LET f == Flipped(mat)
      w == [i \in 1..Len(mat) |-> RowSum(mat, i)]
  IN \A x \in kept : Same(x[3], Ratio(f, w, Total(mat), 0, x[2], x[1]))
(* the mean of the ratios over independent draws of row and column is one:
   sum of P(x) P(y) ratio(x,y) over all cells = 1, here times Total *)
MeanIsOne == (stage = "done" /\ giv = <<>> /\ ~half /\ alpha = 0) =>
  \A i \in 1..Len(mat) : RowSum(mat, i) > 0 =>
     \A j \in 1..Len(mat[i]) : mat[i][j] > 0 =>
        LET r == Ratio(mat, Wts, Whl, 0, i, j)
        IN r[1] * RowSum(mat, i) * Wts[j] = mat[i][j] * Total(mat) * r[2]
MoreSmoothingIsLess == stage = "done" =>
  \A x \in kept : ~Less(x[3], Ratio(mat, Wts, Whl, alpha + 8, x[1], x[2]))
=============================================================================

------------------------------ MODULE Distance ------------------------------
(* String distances.  An edit script reads two strings from the left and     *)
(* deletes, inserts or substitutes; the edit distance is the cost of the     *)
(* cheapest script.  Costs are integers: One is the cost of an insertion or  *)
(* deletion.                                                                 *)
EXTENDS HangleChars

(* letters of a lone letter or syllable; <<>> for other characters           *)
SubPlain(one, tab, a, b) == IF a = b THEN 0 ELSE Get(tab, <<a, b>>, one)

(* one row of the table: D(i, 0..n) from D(i-1, 0..n) *)
RECURSIVE Row(_, _, _, _, _)
(* prev: previous row; acc: row so far; costs[j]: substitution cost of a by b[j] *)
Row(prev, costs, one, acc, j) ==
  IF j > Len(costs) THEN acc
  ELSE Row(prev, costs, one,
           Append(acc, Min2(Min2(prev[j + 1] + one, acc[j] + one), prev[j] + costs[j])), j + 1)
FirstRow(n, one) == [j \in 1..(n + 1) |-> (j - 1) * one]
RECURSIVE Table(_, _, _, _, _)
(* cost[i][j]: substitution cost of the i-th character of s by the j-th of t *)
Table(row, cost, one, i, n) ==
  IF i > n THEN row ELSE Table(Row(row, cost[i], one, <<row[1] + one>>, 1), cost, one, i + 1, n)
EditDistance(m, n, cost, one) == Table(FirstRow(n, one), cost, one, 1, m)[n + 1]

(* Levenshtein with user substitution costs (pairs -> cost) *)
Levenshtein(s, t, tab, one) ==
  EditDistance(Len(s), Len(t), TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(t) |-> SubPlain(one, tab, s[i], t[j])])]), one)
(* in thirds: a character is replaced at the edit distance of its letters *)
SubJamo(a, b) ==
  IF a = b THEN 0
  ELSE IF IsHangul(a) /\ IsHangul(b) THEN Levenshtein(Letters(a), Letters(b), <<>>, 1)
  ELSE 3
JamoLevenshtein(s, t) ==
  EditDistance(Len(s), Len(t), TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(t) |-> SubJamo(s[i], t[j])])]), 3)

(* multiset and set comparison over units *)
Units(s, n) == [i \in 1..(Len(s) - n + 1) |-> SubSeq(s, i, i + n - 1)]
CountIn(u, x) == Cardinality({i \in 1..Len(u) : u[i] = x})
Dot(u, v) == LET S == ListOf(SeqRange(u)) IN SumSeq([i \in 1..Len(S) |-> CountIn(u, S[i]) * CountIn(v, S[i])])
Both(u, v) == Cardinality(SeqRange(u) \cap SeqRange(v))
Either(u, v) == Cardinality(SeqRange(u) \cup SeqRange(v))

-----------------------------------------------------------------------------
(* an edit script in progress: characters read so far and cost so far        *)
VARIABLES s1, s2, tab, kind, i1, i2, paid, mode
dsvars == <<s1, s2, tab, kind, i1, i2, paid, mode>>
Unit == 6                            \* an insertion; a third is 2
SubCost(a, b) == IF kind = "jamo" THEN 2 * SubJamo(a, b) ELSE SubPlain(Unit, tab, a, b)
DsInit == s1 = <<>> /\ s2 = <<>> /\ tab = <<>> /\ kind = "" /\ i1 = 0 /\ i2 = 0 /\ paid = 0 /\ mode = "idle"
Compare(a, b, costs, k) ==
  /\ mode = "idle" /\ s1' = a /\ s2' = b /\ tab' = costs /\ kind' = k
  /\ i1' = 0 /\ i2' = 0 /\ paid' = 0 /\ mode' = "edit"
Delete == mode = "edit" /\ i1 < Len(s1) /\ i1' = i1 + 1 /\ paid' = paid + Unit /\ UNCHANGED <<s1, s2, tab, kind, i2, mode>>
Insert == mode = "edit" /\ i2 < Len(s2) /\ i2' = i2 + 1 /\ paid' = paid + Unit /\ UNCHANGED <<s1, s2, tab, kind, i1, mode>>
Substitute ==
  /\ mode = "edit" /\ i1 < Len(s1) /\ i2 < Len(s2) /\ i1' = i1 + 1 /\ i2' = i2 + 1
  /\ paid' = paid + SubCost(s1[i1 + 1], s2[i2 + 1])
  /\ UNCHANGED <<s1, s2, tab, kind, mode>>
Complete == mode = "edit" /\ i1 = Len(s1) /\ i2 = Len(s2)
DistanceOf(a, b) == IF kind = "jamo" THEN 2 * JamoLevenshtein(a, b) ELSE Levenshtein(a, b, tab, Unit)
(* no way of reading the first i1 and i2 characters is cheaper than the distance of these prefixes *)
NoCheaperScript == mode = "edit" => paid >= DistanceOf(SubSeq(s1, 1, i1), SubSeq(s2, 1, i2))
Metric ==
  mode = "edit" => /\ (kind = "jamo" \/ tab = <<>>) => DistanceOf(s1, s2) = DistanceOf(s2, s1)
                   /\ DistanceOf(s1, s1) = 0
                   /\ DistanceOf(s1, s2) <= Unit * Max2(Len(s1), Len(s2)) \/ tab # <<>>
                   /\ (tab = <<>> => (DistanceOf(s1, s2) = 0) = (s1 = s2))
=============================================================================

------------------------------- MODULE Utils -------------------------------
(* Helper functions: directories and files, nearest items, corpora that can  *)
(* be used, singular vectors.                                                *)
EXTENDS Text, FiniteSetsExt
VARIABLES dirs,     \* set of directories, each a sequence of names
          files,    \* file (a directory and a name) -> its text
          answer    \* what the last call answered
uvars == <<dirs, files, answer>>
X == INSTANCE Corpus WITH lines <- <<>>, opt <- <<>>, its <- <<>>

(* directories *)
Above(p) == {SubSeq(p, 1, i) : i \in 1..(Len(p) - 1)}
(* a file stands in the way of a directory *)
Blocked(p) == \E d \in Above(p) : d \in DOMAIN files
CheckDirs(p) == ~Blocked(p) /\ dirs' = dirs \cup Above(p) /\ answer' = <<>> /\ UNCHANGED files
Write(p, s) == Above(p) \subseteq dirs /\ p \notin dirs /\ files' = [q \in DOMAIN files \cup {p} |-> IF q = p THEN s ELSE files[q]]
               /\ answer' = <<>> /\ UNCHANGED dirs
(* the lines of a text without blanks around them, empty ones left out, in order *)
Kept(s) == LET ls == X!FileLines(s) IN SelectSeq([i \in 1..Len(ls) |-> X!Strip(ls[i])], LAMBDA x : x # <<>>)
Sorted(s) == LET ls == SortSeq(Kept(s), LexLess) IN Concat([i \in 1..Len(ls) |-> ls[i] \o <<10>>])
SortFile(p) == p \in DOMAIN files /\ files' = [files EXCEPT ![p] = Sorted(@)] /\ answer' = <<>> /\ UNCHANGED dirs

(* nearest items; vectors have whole lengths *)
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])
Norm(a) == CHOOSE n \in 0..200 : n * n = Dot(a, a)
Cosine(a, b) == IF Norm(a) * Norm(b) = 0 THEN <<0, 1>> ELSE <<Dot(a, b), Norm(a) * Norm(b)>>
Less(x, y) == x[1] * y[2] < y[1] * x[2]
HowMany(k, n) == IF k > 0 THEN Min2(k, n - 1) ELSE n - 1
(* ranks: positions, best first *)
IsRanking(m, q, k, ranks) ==
  LET sim(i) == Cosine(m[q], m[i])
      shown == SeqRange(ranks)
  IN /\ Len(ranks) = HowMany(k, Len(m)) /\ Cardinality(shown) = Len(ranks) /\ shown \subseteq (1..Len(m)) \ {q}
     /\ \A i \in 1..(Len(ranks) - 1) : ~Less(sim(ranks[i]), sim(ranks[i + 1]))
     /\ \A i \in shown, j \in (1..Len(m)) \ (shown \cup {q}) : ~Less(sim(i), sim(j))
Rankings(m, q, k) == {r \in [1..HowMany(k, Len(m)) -> 1..Len(m)] : IsRanking(m, q, k, r)}
(* as a search: the best of those left comes next *)
RECURSIVE Ranked(_, _, _)
Ranked(m, q, left) ==
  IF left = {} THEN {<<>>}
  ELSE LET best == {i \in left : \A j \in left : ~Less(Cosine(m[q], m[i]), Cosine(m[q], m[j]))}
       IN UNION {{<<i>> \o r : r \in Ranked(m, q, left \ {i})} : i \in best}
Similar(m, q, k) == answer' = <<m, q, k>> /\ UNCHANGED <<dirs, files>>

(* corpora *)
Usable(o) == o.iter /\ o.len /\ o.n > 0

(* a matrix with one value at most in every row and column, the values all
   different: its singular values are the sizes of the values *)
Entries(m) == {p \in (1..Len(m)) \X (1..Len(m[1])) : m[p[1]][p[2]] # 0}
Spread(m) == /\ \A p, q \in Entries(m) : p # q => p[1] # q[1] /\ p[2] # q[2]
             /\ Cardinality({Abs(m[p[1]][p[2]]) : p \in Entries(m)}) = Cardinality(Entries(m))
Size(m, p) == Abs(m[p[1]][p[2]])
Largest(m, k) == {p \in Entries(m) : Cardinality({q \in Entries(m) : Size(m, q) > Size(m, p)}) < k}
SingularValues(m, k) ==
  LET vs == SortedInts({Size(m, p) : p \in Largest(m, k)})
  IN [i \in 1..k |-> IF i <= Len(vs) THEN vs[Len(vs) + 1 - i] ELSE 0]
LowRank(m, k) == [i \in 1..Len(m) |-> [j \in 1..Len(m[1]) |-> IF <<i, j>> \in Largest(m, k) THEN m[i][j] ELSE 0]]

-----------------------------------------------------------------------------
UInit == dirs = {} /\ files = <<>> /\ answer = <<>>
Closed == \A d \in dirs : Above(d) \subseteq dirs
Parents == \A p \in DOMAIN files : Above(p) \subseteq dirs
SortedTwice == \A p \in DOMAIN files : Sorted(Sorted(files[p])) = Sorted(files[p])
NothingLost == \A p \in DOMAIN files : LET a == Kept(files[p])  b == Kept(Sorted(files[p]))
  IN Len(a) = Len(b) /\ \A x \in SeqRange(a) : Cardinality({i \in 1..Len(a) : a[i] = x}) = Cardinality({i \in 1..Len(b) : b[i] = x})
SearchRanks == (answer # <<>> /\ Len(answer) = 3) =>
  LET m == answer[1]  q == answer[2]
  IN {SubSeq(r, 1, HowMany(answer[3], Len(m))) : r \in Ranked(m, q, (1..Len(m)) \ {q})} = Rankings(m, q, answer[3])
=============================================================================

------------------------------- MODULE Text -------------------------------
(* Text is a sequence of Unicode code points; positions are 0-based and half *)
(* open as in the code, so Slice(s,b,e) is s[b:e].                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slice(s, b, e) == SubSeq(s, b + 1, e)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
SeqRange(s) == {s[i] : i \in 1..Len(s)}

(* what str.split() and \s treat as white space *)
WhiteSet == (9..13) \cup (28..32) \cup {133, 160, 5760} \cup (8192..8202)
            \cup {8232, 8233, 8239, 8287, 12288}
White(c) == c \in WhiteSet

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>>
              ELSE IF Len(ss) = 1 THEN ss[1]
              ELSE LET h == Len(ss) \div 2
                   IN Concat(SubSeq(ss, 1, h)) \o Concat(SubSeq(ss, h + 1, Len(ss)))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0
             ELSE IF Len(s) = 1 THEN s[1]
             ELSE LET h == Len(s) \div 2
                  IN SumSeq(SubSeq(s, 1, h)) + SumSeq(SubSeq(s, h + 1, Len(s)))

(* the elements of S as a sequence in ascending order (integers) *)
SortedInts(S) == LET RECURSIVE F(_, _)
                     F(T, acc) == IF T = {} THEN acc
                                  ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y
                                       IN F(T \ {m}, Append(acc, m))
                 IN F(S, <<>>)

(* positions i (1-based) of s satisfying P, ascending *)
Where(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], P)

(* str.split(): maximal runs of non-white characters *)
SplitWhite(s) ==
  LET n == Len(s)
      w == [i \in 1..n |-> White(s[i])]
      IsStart(i) == ~w[i] /\ (i = 1 \/ w[i - 1])
      IsEnd(i) == ~w[i] /\ (i = n \/ w[i + 1])
      st == Where(s, IsStart)
      en == Where(s, IsEnd)
  IN [k \in 1..Len(st) |-> SubSeq(s, st[k], en[k])]

(* all characters of s that are not white space *)
NonWhite(s) == LET P(c) == ~White(c) IN SelectSeq(s, P)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* <<key, value>> pairs -> function; a later pair wins, as in a dict *)
MkDict(pairs) ==
  [k \in {p[1] : p \in SeqRange(pairs)} |->
     LET last == CHOOSE i \in 1..Len(pairs) :
                   pairs[i][1] = k /\ \A j \in (i + 1)..Len(pairs) : pairs[j][1] # k
     IN pairs[last][2]]

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* strict lexicographic order on sequences of integers *)
RECURSIVE LexLessFrom(_, _, _)
LexLessFrom(a, b, i) ==
  IF i > Len(a) THEN i <= Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLessFrom(a, b, i + 1)
LexLess(a, b) == LexLessFrom(a, b, 1)

(* the elements of a finite set as a sequence, in any order *)
LOCAL SX == INSTANCE SequencesExt
ListOf(S) == SX!SetToSeq(S)
(* ... in the order of the keys (sequences of integers, all different) *)
SortBy(S, key(_)) ==
  LET a == ListOf({<<key(x), x>> : x \in S})
      b == SortSeq(a, LAMBDA x, y : LexLess(x[1], y[1]))
  IN [i \in 1..Len(b) |-> b[i][2]]
=============================================================================

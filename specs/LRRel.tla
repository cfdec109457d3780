------------------------------- MODULE LRRel -------------------------------
(* Weighted relations between left and right parts of eojeols.               *)
EXTENDS Text, FiniteSetsExt
NoRel == <<>>                       \* the empty function
Keep(f, D) == [k \in D |-> f[k]]
Bump(f, k, c) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + c] ELSE f @@ (k :> c)
Drop(f, k, c) == IF k \notin DOMAIN f THEN f
                 ELSE IF f[k] <= c THEN Keep(f, DOMAIN f \ {k})
                 ELSE [f EXCEPT ![k] = @ - c]
BumpAll(f, S, c) == [k \in DOMAIN f \cup S |->
                       (IF k \in DOMAIN f THEN f[k] ELSE 0) + (IF k \in S THEN c ELSE 0)]
Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> Get(f, k, 0) + Get(g, k, 0)]
DropAll(f, S, c) ==
  [k \in {k \in DOMAIN f : k \notin S \/ f[k] > c} |-> IF k \in S THEN f[k] - c ELSE f[k]]

(* every way of cutting w into a non-empty left and a right part *)
Splits(w) == {<<SubSeq(w, 1, i), SubSeq(w, i + 1, Len(w))>> : i \in 1..Len(w)}
Flip(p) == <<p[2], p[1]>>
(* the splits seen from the right side: an empty right part is not a node *)
FlipSplits(w) == {Flip(p) : p \in {q \in Splits(w) : q[2] # <<>>}}
Backward(lr) == [k \in {Flip(p) : p \in {q \in DOMAIN lr : q[2] # <<>>}} |-> lr[Flip(k)]]

Allowed(w, lmax, rmax) == {p \in Splits(w) : Len(p[1]) <= lmax /\ Len(p[2]) <= rmax}
(* relation of weighted words: ws is a sequence of <<word, count>> *)
RelOfWords(ws, lmax, rmax) ==
  LET keys == UNION {Allowed(ws[i][1], lmax, rmax) : i \in 1..Len(ws)}
      count(k) == LET w == k[1] \o k[2]
                  IN SumSeq([i \in 1..Len(ws) |-> IF ws[i][1] = w THEN ws[i][2] ELSE 0])
  IN [k \in keys |-> count(k)]

Rights(R, w) == {k[2] : k \in {k \in DOMAIN R : k[1] = w}}
LeftsOf(R, r) == {k[1] : k \in {k \in DOMAIN R : k[2] = r}}
Weight(R, w, S) == FoldSet(LAMBDA r, a : a + R[<<w, r>>], 0, S)
(* the eojeols of the words of W, in full, leave the relation.  Words of one
   length never share an eojeol. *)
Consume(R, W, ok(_, _)) ==
  LET used(k) == LET x == k[1] \o k[2]
                     ps == {w \in W : Len(w) <= Len(x) /\ SubSeq(x, 1, Len(w)) = w}
                 IN IF ps = {} THEN 0
                    ELSE LET w == CHOOSE w \in ps : TRUE  r == SubSeq(x, Len(w) + 1, Len(x))
                         IN IF <<w, r>> \in DOMAIN R /\ ok(w, r) THEN R[<<w, r>>] ELSE 0
  IN [k \in {k \in DOMAIN R : R[k] > used(k)} |-> R[k] - used(k)]
AnyR(w, r) == TRUE
Longest(W) == LET n == FoldSet(LAMBDA w, a : Max2(Len(w), a), 0, W) IN {w \in W : Len(w) = n}

=============================================================================

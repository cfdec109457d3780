------------------------------ MODULE LRGraph ------------------------------
(* L-R graphs: a weighted relation between left parts and right parts of     *)
(* eojeols, kept from both sides, with an origin it can be reset to.         *)
EXTENDS LRRel

VARIABLES
  gr,      \* graph id -> [lr, rl, origin, frozen, lmax, rmax]
  files    \* file name -> saved relation

Graph(lr, lmax, rmax) ==
  [lr |-> lr, rl |-> Backward(lr), origin |-> lr, frozen |-> FALSE, lmax |-> lmax, rmax |-> rmax]
Put(g, x) == gr' = [k \in DOMAIN gr \cup {g} |-> IF k = g THEN x ELSE gr[k]]

-----------------------------------------------------------------------------
(* the calls *)
New(g, rel, lmax, rmax) == Put(g, Graph(rel, lmax, rmax)) /\ UNCHANGED files
NewFromSents(g, sents, lmax, rmax) ==
  LET words == Concat([i \in 1..Len(sents) |-> SplitWhite(sents[i])])
  IN /\ Put(g, Graph(RelOfWords([i \in 1..Len(words) |-> <<words[i], 1>>], lmax, rmax), lmax, rmax))
     /\ UNCHANGED files
AddPair(g, l, r, c) ==
  /\ gr' = [gr EXCEPT ![g].lr = Bump(@, <<l, r>>, c),
                      ![g].rl = IF r = <<>> THEN @ ELSE Bump(@, <<r, l>>, c)]
  /\ UNCHANGED files
AddEojeol(g, w, c) ==
  /\ gr' = [gr EXCEPT ![g].lr = BumpAll(@, Splits(w), c),
                      ![g].rl = BumpAll(@, FlipSplits(w), c)]
  /\ UNCHANGED files
RemovePair(g, l, r, c) ==
  /\ gr' = [gr EXCEPT ![g].lr = Drop(@, <<l, r>>, c), ![g].rl = Drop(@, <<r, l>>, c)]
  /\ UNCHANGED files
RemoveEojeol(g, w, c) ==
  /\ gr' = [gr EXCEPT ![g].lr = DropAll(@, Splits(w), c),
                      ![g].rl = DropAll(@, FlipSplits(w), c)]
  /\ UNCHANGED files
(* a graph without an origin (built empty, frozen, or a compact copy) is left alone *)
Reset(g) ==
  /\ gr' = IF gr[g].origin = NoRel THEN gr
           ELSE [gr EXCEPT ![g].lr = gr[g].origin, ![g].rl = Backward(gr[g].origin)]
  /\ UNCHANGED files
Freeze(g) == gr' = [gr EXCEPT ![g].frozen = TRUE, ![g].origin = NoRel] /\ UNCHANGED files
(* copy_compatified_lrgraph_origin: a graph holding g's origin; it has no
   origin of its own *)
CopyOrigin(g, h) ==
  /\ ~gr[g].frozen
  /\ Put(h, [Graph(gr[g].origin, gr[g].lmax, gr[g].rmax) EXCEPT !.origin = NoRel])
  /\ UNCHANGED files
Save(g, f) ==
  /\ ~gr[g].frozen
  /\ files' = [k \in DOMAIN files \cup {f} |-> IF k = f THEN gr[g].origin ELSE files[k]]
  /\ UNCHANGED gr
Load(g, f) ==
  /\ f \in DOMAIN files
  /\ gr' = [gr EXCEPT ![g] = Graph(files[f], @.lmax, @.rmax)]
  /\ UNCHANGED files
Query == UNCHANGED <<gr, files>>

-----------------------------------------------------------------------------
(* answers *)
Triples(lr) == {<<k[1], k[2], lr[k]>> : k \in DOMAIN lr}
RDict(g, l) == {<<k[2], gr[g].lr[k]>> : k \in {q \in DOMAIN gr[g].lr : q[1] = l}}
LDict(g, r) == {<<k[2], gr[g].rl[k]>> : k \in {q \in DOMAIN gr[g].rl : q[1] = r}}
(* ans lists pairs of S, most frequent first, at most topk of them (all if
   topk is not positive); equal counts may come in any order *)
IsTop(ans, S, topk) ==
  LET A == SeqRange(ans)
      n == IF topk > 0 THEN Min2(topk, Cardinality(S)) ELSE Cardinality(S)
  IN /\ Len(ans) = n /\ Cardinality(A) = n /\ A \subseteq S
     /\ \A i \in 1..(Len(ans) - 1) : ans[i][2] >= ans[i + 1][2]
     /\ \A x \in S \ A : \A y \in A : y[2] >= x[2]
(* eojeol counts read off a relation: where the splits of an eojeol disagree
   any of their counts is a legal answer *)
IsCounter(ans, rel) ==
  LET A == SeqRange(ans)
      W == {k[1] \o k[2] : k \in DOMAIN rel}
  IN /\ Len(ans) = Cardinality(W) /\ {a[1] : a \in A} = W
     /\ \A a \in A : \E k \in DOMAIN rel : k[1] \o k[2] = a[1] /\ rel[k] = a[2]

-----------------------------------------------------------------------------
(* invariants *)
Mirror == \A g \in DOMAIN gr : gr[g].rl = Backward(gr[g].lr)
Positive == \A g \in DOMAIN gr : \A k \in DOMAIN gr[g].lr : gr[g].lr[k] > 0 /\ Len(k[1]) > 0
FrozenHasNoOrigin == \A g \in DOMAIN gr : gr[g].frozen => gr[g].origin = NoRel
=============================================================================

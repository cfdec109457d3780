------------------------------- MODULE PosTag -------------------------------
(* Template taggers: L-R words of an eojeol, their scores, the greedy choice *)
(* of non-overlapping ones; or whole decompositions of the eojeol, the best  *)
(* one kept.  A word is [b, m, e, l, lt, r, rt]: the left part is the text   *)
(* from b to m, the right part from m to e, "~" stands for no tag.           *)
EXTENDS Text, FiniteSetsExt
NoTag == "~"
W(t, b, m, e, lt, rt) == [b |-> b, m |-> m, e |-> e, l |-> Slice(t, b, m), lt |-> lt, r |-> Slice(t, m, e), rt |-> rt]
Known(td, w, g) == g \in DOMAIN td /\ w \in td[g]

(* ---- L-R words ---- *)
(* ltags: tags of left words; tpl: tag of a left word -> tags of right words *)
LParts(td, ltags, t) == {<<b, m, g>> \in (0..Len(t)) \X (0..Len(t)) \X ltags : m >= b + 2 /\ Known(td, Slice(t, b, m), g)}
LRAll(td, ltags, tpl, t) ==
  UNION {{W(t, p[1], p[2], p[2], p[3], NoTag)}
         \cup UNION {{W(t, p[1], p[2], e, p[3], g) : e \in {x \in (p[2] + 1)..Len(t) : Known(td, Slice(t, p[2], x), g)}} : g \in Get(tpl, p[3], {})}
         : p \in LParts(td, ltags, t)}
B(x) == IF x THEN 1 ELSE 0
(* w: the weights in order; pref: <<tag, word>> -> score *)
LRScore(w, pref, x) ==
  w[1] * B(x.lt = "Noun") + w[2] * B(x.lt # NoTag /\ x.rt # NoTag) + w[3] * B(x.lt = "Verb") + w[4] * B(x.lt = "Adjective")
  + w[5] * (x.m - x.b) + w[6] * (x.e - x.m) + w[7] * B(x.m - x.b = 1)
  + Get(pref, <<x.lt, x.l>>, 0) + Get(pref, <<x.rt, x.r>>, 0)
Overlap(x, y) == x.b < y.e /\ y.b < x.e
Best(w, pref, C) == LET top == Max({LRScore(w, pref, x) : x \in C}) IN {x \in C : LRScore(w, pref, x) = top}
Rest(C, x) == {y \in C : ~Overlap(x, y) /\ y # x}
(* every result of choosing the best remaining word again and again *)
RECURSIVE GreedyResults(_, _, _)
GreedyResults(w, pref, C) ==
  IF C = {} THEN {{}} ELSE UNION {{{x} \cup r : r \in GreedyResults(w, pref, Rest(C, x))} : x \in Best(w, pref, C)}

(* what lies between the chosen words is added as unknown *)
InOrder(S) == SortBy(S, LAMBDA x : <<x.b>>)
Gaps(t, S) ==
  LET o == InOrder(S)
      n == Len(o)
      pts == [i \in 1..(n + 1) |-> <<IF i = 1 THEN 0 ELSE o[i - 1].e, IF i = n + 1 THEN Len(t) ELSE o[i].b>>]
  IN {W(t, p[1], p[2], p[2], NoTag, NoTag) : p \in {q \in SeqRange(pts) : q[1] < q[2]}}
Filled(t, S) == S \cup Gaps(t, S)
(* the words of one eojeol as shown: (left part, tag), then (right part, tag) *)
Show(S) ==
  LET o == InOrder(S)
  IN Concat([i \in 1..Len(o) |-> (IF o[i].l = <<>> THEN <<>> ELSE << <<o[i].l, o[i].lt>> >>)
                                 \o (IF o[i].r = <<>> THEN <<>> ELSE << <<o[i].r, o[i].rt>> >>)])

(* ---- whole decompositions ---- *)
(* words of one tag from the left, the shortest first, never the whole eojeol
   at once; an attempt that gets stuck gives nothing *)
Stuck == W(<<>>, 0, 0, 0, "stuck", NoTag)
RECURSIVE Chain(_, _, _, _)
Chain(td, g, t, b) ==
  IF b = Len(t) THEN <<>>
  ELSE LET es == {e \in (b + 1)..Len(t) : Known(td, Slice(t, b, e), g) /\ ~(b = 0 /\ e = Len(t))}
       IN IF es = {} THEN <<Stuck>>
          ELSE LET e == Min(es) IN <<W(t, b, e, e, g, NoTag)>> \o Chain(td, g, t, e)
Compound(td, g, t) == LET c == Chain(td, g, t, 0)
                      IN IF c # <<>> /\ c[Len(c)] = Stuck THEN {} ELSE {c}
EojeolAll(td, singles, pairs, t) ==
  LET n == Len(t)
      s == {<<W(t, 0, n, n, g, NoTag)>> : g \in {x \in singles : Known(td, t, x)}}
  IN (IF s = {} THEN {<<W(t, 0, n, n, NoTag, NoTag)>>} ELSE s)
     \cup UNION {{<<W(t, 0, b, n, p[1], p[2])>> : b \in {x \in 1..(n - 1) : Known(td, Slice(t, 0, x), p[1]) /\ Known(td, Slice(t, x, n), p[2])}} : p \in pairs}
     \cup Compound(td, "Noun", t) \cup Compound(td, "Adverb", t)
CountTag(c, g) == Cardinality({i \in 1..Len(c) : c[i].lt = g})
EojeolScore(w, c) ==
  LET nouns == CountTag(c, "Noun")
      n == Len(c)
  IN nouns * w[1] + n * w[2] + B(nouns > 0) * w[3] + CountTag(c, NoTag) * w[4]
     + B(n > 1 /\ n = CountTag(c, "Adverb")) * w[5] + B(n > 1 /\ n = nouns) * w[6]
     + B(n = 1 /\ c[1].lt = "Noun" /\ c[1].rt = "Josa") * w[7]
     + B(n = 1 /\ c[1].lt = "Noun" /\ c[1].r = <<>>) * w[8]
EojeolBest(w, C) == LET top == Max({EojeolScore(w, c) : c \in C}) IN {c \in C : EojeolScore(w, c) = top}

-----------------------------------------------------------------------------
VARIABLES tok, cand, chosen, step
ptvars == <<tok, cand, chosen, step>>
PtInit == tok = <<>> /\ cand = {} /\ chosen = {} /\ step = "idle"
Offer(t, C) == step = "idle" /\ tok' = t /\ cand' = C /\ chosen' = {} /\ step' = "pick"
Pick(w, pref, x) == /\ step = "pick" /\ cand # {} /\ x \in Best(w, pref, cand)
                    /\ chosen' = chosen \cup {x} /\ cand' = Rest(cand, x) /\ UNCHANGED <<tok, step>>
Picked == step = "pick" /\ cand = {} /\ step' = "done" /\ UNCHANGED <<tok, cand, chosen>>
Disjoint == \A x, y \in chosen : x = y \/ ~Overlap(x, y)
RECURSIVE Spelled(_)
Spelled(s) == IF s = <<>> THEN <<>> ELSE Head(s)[1] \o Spelled(Tail(s))
(* with the unknown parts added the shown words spell the eojeol *)
Covers == step = "done" => Spelled(Show(Filled(tok, chosen))) = tok
Tiles(t, c) == /\ c # <<>> /\ c[1].b = 0 /\ c[Len(c)].e = Len(t)
               /\ \A i \in 1..(Len(c) - 1) : c[i].e = c[i + 1].b
=============================================================================

------------------------------ MODULE NewsNoun ------------------------------
(* NewsNounExtractor: left parts of eojeols whose right parts are those of   *)
(* nouns, without those that are a noun and the beginning of something else, *)
(* and the eojeols made of nouns.  Scores are in millionths.                 *)
EXTENDS LRRel

VARIABLES cf,      \* lmax, rmax, feats: right part -> score, preds: words of the verb and adjective dictionary
          g,       \* what training leaves: the graph, see GraphOf
          nd,      \* the noun dictionary: grows with every extraction
          args,    \* of the running extraction: min score, prop, minf, cands
          ns,      \* candidates that score as nouns, in order
          post,    \* those that pass the rules
          todo,    \* still to be looked at, in order
          out,     \* the last answer: noun -> judgement
          phase
nnvars == <<cf, g, nd, args, ns, post, todo, out, phase>>
H == INSTANCE HangleChars
Million == 1000000

-----------------------------------------------------------------------------
(* eojeols in order of first appearance -> count *)
FirstSeen(ws) == LET new(i) == \A j \in 1..(i - 1) : ws[j] # ws[i]
                     at == Where(ws, new)
                 IN [i \in 1..Len(at) |-> ws[at[i]]]
Judged(c, rd, whole) ==
  LET rs == DOMAIN rd
      ft == {r \in rs : r \in DOMAIN c.feats}
      sum(S) == FoldSet(LAMBDA r, a : a + rd[r], 0, S)
  IN [num |-> FoldSet(LAMBDA r, a : a + rd[r] * c.feats[r], 0, ft), norm |-> sum(ft), total |-> sum(rs), whole |-> whole,
      npos |-> Cardinality({r \in ft : c.feats[r] > 0}), nft |-> Cardinality(ft)]
GraphOf(c, sents) ==
  LET all == Concat([i \in 1..Len(sents) |-> SplitWhite(sents[i])])
      short(w) == Len(w) <= c.lmax + c.rmax
      toks == SelectSeq(all, short)
      eo == FirstSeen(toks)
      n == TLCEval([w \in SeqRange(eo) |-> Cardinality({i \in 1..Len(toks) : toks[i] = w})])
      from(w) == LET es == [e \in 1..Min2(c.lmax, Len(w)) |-> e]
                     fits(e) == Len(w) - e <= c.rmax
                     ok == SelectSeq(es, fits)
                 IN [i \in 1..Len(ok) |-> SubSeq(w, 1, ok[i])]
      ls == FirstSeen(Concat([i \in 1..Len(eo) |-> from(eo[i])]))
      ends(l) == {SubSeq(w, Len(l) + 1, Len(w)) : w \in {w \in DOMAIN n : StartsWith(w, l) /\ Len(w) - Len(l) <= c.rmax}}
      rd == TLCEval([l \in SeqRange(ls) |-> [r \in ends(l) |-> n[l \o r]]])
  IN [count |-> n, lefts |-> ls, rights |-> rd, judge |-> TLCEval([l \in DOMAIN rd |-> Judged(c, rd[l], Get(n, l, 0))])]

Unseen(w) == [num |-> 0, norm |-> 0, total |-> 0, whole |-> Get(g.count, w, 0), npos |-> 0, nft |-> 0]
J(w) == IF w \in DOMAIN g.judge THEN g.judge[w] ELSE Unseen(w)
Freq(w) == J(w).total
(* num / norm and norm / (total - whole) against p / q; 0 where there is none *)
Den(n) == IF n = 0 THEN 1 ELSE n
ScoreOver(w, q) == LET j == J(w) IN j.num * q[2] > q[1] * Million * Den(j.norm)
ScoreReaches(w, q) == LET j == J(w) IN j.num * q[2] >= q[1] * Million * Den(j.norm)
Spread(j) == IF j.total - j.whole > 0 THEN <<j.norm, j.total - j.whole>> ELSE <<0, 1>>
PropOver(w, q) == LET s == Spread(J(w)) IN s[1] * q[2] > q[1] * s[2]
Sum(w, sel(_)) == IF w \in DOMAIN g.rights THEN FoldSet(LAMBDA r, a : a + g.rights[w][r], 0, {r \in DOMAIN g.rights[w] : sel(r)}) ELSE 0
Whole(w, minf) == LET j == J(w) IN j.total >= minf /\ 100 * j.whole >= 99 * j.total
L(w, e) == SubSeq(w, 1, e)
R(w, e) == SubSeq(w, e + 1, Len(w))
Butlast(w) == SubSeq(w, 1, Len(w) - 1)
Josas == {r \in DOMAIN cf.feats : cf.feats[r] > 100000} \cup {<<45716>>}

(* an eojeol that is a noun and a predicator: its noun *)
NounOfNV(w) ==
  LET es == {e \in 2..(Len(w) - 2) : ScoreReaches(L(w, e), <<2, 5>>) /\ R(w, e) \in cf.preds}
  IN IF es = {} THEN <<>> ELSE L(w, CHOOSE e \in es : \A d \in es : e <= d)
NounsOfNV(minf) == {NounOfNV(w) : w \in {w \in DOMAIN g.rights : Whole(w, minf)}} \ {<<>>}

(* noun, and the beginning of a particle *)
NJsubJ(D, w) ==
  LET es == {e \in 2..(Len(w) - 1) : L(w, e) \in D \/ ScoreOver(L(w, e), <<2, 5>>)}
      base == Freq(L(w, CHOOSE e \in es : \A d \in es : d <= e))
      cut(r) == \E e \in es : R(w \o r, e) \in Josas
      all(r) == TRUE
  IN es # {} /\ base # 0 /\ ~(10 * Freq(w) > 7 * base) /\ 10 * Sum(w, cut) > 8 * Sum(w, all)
(* the beginnings of w that want a particle to be w *)
NsubsOf(w) == {L(w, e) : e \in {e \in 2..(Len(w) - 1) : R(w, e) \in Josas /\ ScoreOver(L(w, e), <<7, 10>>) /\ 10 * Freq(L(w, e)) > 7 * Freq(w)}}
Tails(w) == IF Len(w) <= 3 THEN {1} ELSE {1, 2}
Mostly(w) == LET j == J(w) IN j.total > 0 /\ 10 * Min2(j.whole, j.total) > 7 * j.total
NVsubE(N, D, w) ==
  \E b \in Tails(w) : LET l == L(w, Len(w) - b)  t == R(w, Len(w) - b)  often(r) == Mostly(t \o r)  all(r) == TRUE IN
    l \in N /\ l \in D /\ Sum(w, all) > 0 /\ 10 * Sum(w, often) > 7 * Sum(w, all)
NWsub(K, w) == \E b \in Tails(w) : LET l == L(w, Len(w) - b) IN l \in K /\ (Freq(l) <= 0 \/ 10 * Freq(w) < Freq(l))
Compound(K, w) ==
  LET n == Len(w) IN
  n >= 4 /\ (\/ \E e \in 2..(n - 1) : L(w, e) \in K /\ R(w, e) \in K
             \/ \E e \in 2..(n - 4) : L(w, e) \in K /\ \E f \in (e + 2)..(n - 2) : SubSeq(w, e + 1, f) \in K /\ R(w, f) \in K)
NJ(K, w) == \E e \in 2..Len(w) : L(w, e) \in K /\ (e = Len(w) \/ Get(cf.feats, R(w, e), 0) > 0)
NV(P, w) == \E e \in 2..(Len(w) - 1) : L(w, e) \in P /\ R(w, e) \in cf.preds
Usual == {<<44284>>, <<45716>>, <<46104, 44256>>, <<46104, 45716>>, <<46104, 45796>>, <<46108, 45796>>, <<46308>>, <<46308, 50640>>, <<46308, 51032>>, <<46308, 51060>>, <<47196>>, <<47196, 45716>>, <<47196, 46020>>, <<47196, 49436>>, <<47484>>, <<48512, 53552>>, <<49104>>, <<49104, 47564>>, <<49104, 51060>>, <<49104, 51064>>, <<50640, 44172>>, <<50640, 46020>>, <<50640, 49436>>, <<50640, 50752>>, <<50752>>, <<51004, 47196>>, <<51004, 47196, 51032>>, <<51008>>, <<51032>>, <<51060>>, <<51060, 45208>>, <<51060, 46972>>, <<51060, 50632>>, <<51064>>, <<51076>>, <<52376, 47100>>, <<54616, 45796>>, <<54620>>, <<54624>>, <<54664, 45912>>, <<54664, 44256>>, <<54664, 45796>>}
(* a rare word with one particle is believed if what follows it is usual *)
UsualJosa(K, w) ==
  LET some(r) == r # <<>>
      usual(r) == r # <<>> /\ (SubSeq(r, 1, Min2(2, Len(r))) \in Usual \/ NJ(K, r))
  IN J(w).total <= 10 /\ J(w).npos <= 1 => 2 * Sum(w, usual) > Sum(w, some)
RoSet == {<<47196>>, <<47196, 50024>>, <<47196, 47564>>, <<47196, 51032>>}
NeunSet == {<<45716>>, <<51060>>, <<45796>>, <<50632, 45796>>}
(* words that end in what belongs to the next word *)
GoodEnd(P, w) ==
  LET n == Len(w)  last == w[n]  two == SubSeq(w, n - 1, n)
      ro(r) == r \in RoSet   man(r) == r = <<47564>>   neun(r) == r \in NeunSet   all(r) == TRUE
      falls == 10 * Freq(w) < 8 * Freq(Butlast(w)) \/ Freq(Butlast(w)) = 0
  IN /\ w \notin cf.preds
     /\ (n >= 2 => two \notin {<<44052, 45796>>, <<51060, 45716>>, <<44192, 51648>>, <<48372, 45716>>})
     /\ ~(last = 51004 /\ 2 * Sum(w, ro) > Sum(w, all))
     /\ ~(last = 51648 /\ 2 * Sum(w, man) > Sum(w, all))
     /\ ~(last = 50630 /\ 2 * Sum(w, neun) > Sum(w, all))
     /\ ~(last \in {51064, 51008, 51032, 50752, 44284} /\ falls)
     /\ ~(n >= 2 /\ two \in {<<46308, 51060>>, <<46308, 51008>>, <<46308, 46020>>, <<46308, 51012>>} /\ falls)
     /\ ~(n >= 2 /\ two = <<51004, 47196>> /\ (n = 3 \/ SubSeq(w, 1, n - 2) \in P))
(* a word mostly followed by a verb in h- *)
NotBeforeHada(K, w) ==
  LET aspirated(r) == r # <<>> /\ H!IsHangul(r[1]) /\ H!Letters(r[1])[1] = 12622   all(r) == TRUE
  IN \/ w[Len(w)] # 45817 /\ Butlast(w) \in K
     \/ Sum(w, all) <= 0 \/ 2 * Sum(w, aspirated) < Sum(w, all)

-----------------------------------------------------------------------------
Candidates(a) ==
  LET long(w) == Len(w) >= 2
      ok(w) == Freq(w) >= a.minf /\ w \notin DOMAIN cf.feats
  IN SelectSeq(FirstSeen(IF a.cands = <<>> THEN SelectSeq(g.lefts, long) ELSE a.cands), ok)
Scored(a) == LET ok(w) == ScoreOver(w, a.min) /\ PropOver(w, a.prop) /\ Len(w) > 1 IN SelectSeq(Candidates(a), ok)
Bad(N, D) ==
  LET nj == {w \in N : NJsubJ(D, w)}
  IN nj \cup UNION {NsubsOf(w) : w \in N \ nj} \cup {w \in N : NVsubE(N, D, w) /\ NWsub(N \cup D, w) /\ ~Compound(N \cup D, w)}
Passes(N, D, P, w) ==
  /\ UsualJosa(N \cup D, w) \/ Compound(N \cup D, w)
  /\ GoodEnd(D \cup P, w) /\ NotBeforeHada(N \cup D, w)
Joins(N, D, P, w) ==
  /\ w \notin P /\ ~NJsubJ(D, w) /\ ~NJ(N \cup D, w) /\ ~NV(P \cup D, w)
  /\ GoodEnd(D \cup P, w) /\ Compound(N \cup D, w)
Wholes(a) == LET whole(w) == Whole(w, a.minf) IN SelectSeq(g.lefts, whole)
Answer(D) == TLCEval([w \in D |-> J(w)])

RECURSIVE Filter(_, _, _, _)
Filter(N, D, ws, P) == IF ws = <<>> THEN P
                       ELSE Filter(N, D, Tail(ws), IF Passes(N, D, P, Head(ws)) THEN P \cup {Head(ws)} ELSE P)
RECURSIVE Join(_, _, _, _)
Join(N, D, P, ws) == IF ws = <<>> THEN D
                     ELSE Join(N, IF Joins(N, D, P, Head(ws)) THEN D \cup {Head(ws)} ELSE D, P, Tail(ws))
Without(ws, S) == LET out_(w) == w \notin S IN SelectSeq(ws, out_)

NnInit == cf = <<>> /\ g = <<>> /\ nd = {} /\ args = <<>> /\ ns = <<>> /\ post = {} /\ todo = <<>> /\ out = <<>> /\ phase = "new"
Make(c, base) == phase = "new" /\ cf' = c /\ nd' = base /\ phase' = "empty" /\ UNCHANGED <<g, args, ns, post, todo, out>>
Train(sents) == phase \in {"empty", "idle"} /\ g' = GraphOf(cf, sents) /\ phase' = "idle" /\ out' = <<>> /\ UNCHANGED <<cf, nd, args, ns, post, todo>>
Start(a) ==
  /\ phase = "idle" /\ args' = a /\ nd' = nd \cup NounsOfNV(a.minf) /\ ns' = Scored(a) /\ post' = {}
  /\ todo' = Without(ns', Bad(SeqRange(ns'), nd')) /\ phase' = "filter" /\ UNCHANGED <<cf, g, out>>
FilterOne ==
  /\ phase = "filter" /\ todo # <<>> /\ todo' = Tail(todo)
  /\ post' = (IF Passes(SeqRange(ns), nd, post, Head(todo)) THEN post \cup {Head(todo)} ELSE post) /\ UNCHANGED <<cf, g, nd, args, ns, out, phase>>
LookAtWholes == phase = "filter" /\ todo = <<>> /\ todo' = Wholes(args) /\ phase' = "join" /\ UNCHANGED <<cf, g, nd, args, ns, post, out>>
JoinOne ==
  /\ phase = "join" /\ todo # <<>> /\ todo' = Tail(todo)
  /\ nd' = (IF Joins(SeqRange(ns), nd, post, Head(todo)) THEN nd \cup {Head(todo)} ELSE nd) /\ UNCHANGED <<cf, g, args, ns, post, out, phase>>
Finish == phase = "join" /\ todo = <<>> /\ nd' = nd \cup post /\ out' = Answer(nd') /\ phase' = "idle" /\ UNCHANGED <<cf, g, args, ns, post, todo>>
(* the same in one step, for replay *)
ExtractAll(a) ==
  /\ phase = "idle" /\ args' = a /\ ns' = Scored(a)
  /\ \E D \in {nd \cup NounsOfNV(a.minf)} : \E N \in {SeqRange(ns')} :
     \E P \in {Filter(N, D, Without(ns', Bad(N, D)), {})} :
       post' = P /\ nd' = Join(N, D, P, Wholes(a)) \cup P
  /\ out' = Answer(nd') /\ UNCHANGED <<cf, g, todo, phase>>

-----------------------------------------------------------------------------
Done == phase = "idle" /\ args # <<>> /\ out # <<>>
AnswerIsDictionary == Done => DOMAIN out = nd
PostScored == \A w \in post : w \in SeqRange(ns) /\ Len(w) > 1 /\ ScoreOver(w, args.min) /\ PropOver(w, args.prop) /\ w \notin DOMAIN cf.feats
FrequentOnly == phase # "new" /\ args # <<>> => \A w \in post : Freq(w) >= args.minf
(* every noun was given, scores as a noun, is followed by predicators, or is a compound *)
Explained(base) == Done => \A w \in nd \ base : w \in post \/ ScoreReaches(w, <<2, 5>>) \/ Compound(nd \cup SeqRange(ns), w)
NoPredicators == \A w \in post : w \notin cf.preds
ScoreWithin == phase \notin {"new", "empty"} => \A w \in DOMAIN g.judge : LET j == g.judge[w] IN
                 j.norm <= j.total /\ j.whole <= j.total /\ j.npos <= j.nft /\ j.num <= Million * Den(j.norm)
=============================================================================

---------------------------- MODULE WordExtract ----------------------------
(* WordExtractor: substring counts of eojeols and of their neighbourhoods,   *)
(* and the word scores that follow from them.                                *)
(*   left[s]   eojeols (two or more characters) that begin with s            *)
(*   right[s]  eojeols that end with s, s proper                             *)
(*   next[<<s, c>>]  s (an eojeol or a proper suffix of one) stands before   *)
(*                   an eojeol that begins with c                            *)
(*   prev[<<c, s>>]  s (an eojeol or a proper prefix) stands after an eojeol *)
(*                   that ends with c                                        *)
(* The sentence is cyclic: its first eojeol follows its last one.            *)
EXTENDS Entropy

VARIABLES cf,       \* settings: L, R maximum lengths, min count, thresholds cl cr bel ber avl avr,
                    \*   drop and subwords (remove words that a longer one nearly always continues)
          left, right, next, prev,
          todo,     \* sentences (token sequences) of the running training
          seen,     \* sentences done in it
          every,    \* its pruning period
          phase,    \* "ready", "train"
          files     \* file name -> what was saved there
wxvars == <<cf, left, right, next, prev, todo, seen, every, phase, files>>
Fresh == [L |-> 10, R |-> 6, min |-> 5, cl |-> <<1, 20>>, cr |-> <<0, 1>>, bel |-> 0, ber |-> 0, avl |-> 0, avr |-> 0,
          drop |-> <<49, 50>>, subwords |-> FALSE]
WxInit == cf = Fresh /\ left = <<>> /\ right = <<>> /\ next = <<>> /\ prev = <<>>
          /\ todo = <<>> /\ seen = 0 /\ every = 0 /\ phase = "ready" /\ files = <<>>

Bump(f, k, c) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = @ + c] ELSE f @@ (k :> c)
RECURSIVE BumpAll(_, _, _)
BumpAll(f, ks, i) == IF i > Len(ks) THEN f ELSE BumpAll(Bump(f, ks[i], 1), ks, i + 1)
AtLeast(f, m) == [k \in {k \in DOMAIN f : f[k] >= m} |-> f[k]]

Prefix(w, n) == SubSeq(w, 1, n)
Suffix(w, n) == SubSeq(w, Len(w) - n + 1, Len(w))
Prefixes(w) == IF Len(w) <= 1 THEN <<>> ELSE [n \in 1..Min2(cf.L + 1, Len(w)) |-> Prefix(w, n)]
Suffixes(w) == IF Len(w) <= 1 THEN <<>> ELSE [n \in 1..Min2(cf.R, Len(w) - 1) |-> Suffix(w, n)]
Heads(w) == [n \in 1..Min2(cf.L, Len(w) - 1) |-> Prefix(w, n)]
Tails(w) == [n \in 1..Min2(cf.R, Len(w) - 1) |-> Suffix(w, n)]
Follow(w, c) == <<<<w, c>>>> \o [n \in 1..Len(Tails(w)) |-> <<Tails(w)[n], c>>]
Precede(c, w) == <<<<c, w>>>> \o [n \in 1..Len(Heads(w)) |-> <<c, Heads(w)[n]>>]
After(s, i) == s[(i % Len(s)) + 1]
Before(s, i) == s[IF i = 1 THEN Len(s) ELSE i - 1]
Edges(s) == IF Len(s) <= 1 THEN <<>> ELSE Concat([i \in 1..Len(s) |-> Follow(s[i], After(s, i)[1])])
Backs(s) == IF Len(s) <= 1 THEN <<>> ELSE Concat([i \in 1..Len(s) |-> Precede(Before(s, i)[Len(Before(s, i))], s[i])])

Create(o) == phase = "ready" /\ cf' = o /\ left' = <<>> /\ right' = <<>> /\ next' = <<>> /\ prev' = <<>>
             /\ UNCHANGED <<todo, seen, every, phase, files>>
SaveTo(f) == phase = "ready" /\ files' = [k \in DOMAIN files \cup {f} |->
                IF k = f THEN [cf |-> cf, left |-> left, right |-> right, next |-> next, prev |-> prev] ELSE files[k]]
             /\ UNCHANGED <<cf, left, right, next, prev, todo, seen, every, phase>>
LoadFrom(f) == /\ phase = "ready" /\ f \in DOMAIN files
               /\ cf' = files[f].cf /\ left' = files[f].left /\ right' = files[f].right
               /\ next' = files[f].next /\ prev' = files[f].prev
               /\ UNCHANGED <<todo, seen, every, phase, files>>
StartTrain(ss, period, again) ==
  /\ phase = "ready" /\ phase' = "train" /\ todo' = ss /\ seen' = 0 /\ every' = period
  /\ IF again THEN UNCHANGED <<left, right, next, prev>>
     ELSE left' = <<>> /\ right' = <<>> /\ next' = <<>> /\ prev' = <<>>
  /\ UNCHANGED <<cf, files>>
(* rare strings are forgotten after a sentence of two or more eojeols whose
   number is a multiple of the period *)
DuePrune == every > 0 /\ seen % every = 0 /\ Len(todo[1]) > 1
Pruned(f) == IF DuePrune THEN AtLeast(f, cf.min) ELSE f
AddSentence ==
  /\ phase = "train" /\ todo # <<>>
  /\ LET s == todo[1] IN
       /\ left' = Pruned(BumpAll(left, Concat([i \in 1..Len(s) |-> Prefixes(s[i])]), 1))
       /\ right' = Pruned(BumpAll(right, Concat([i \in 1..Len(s) |-> Suffixes(s[i])]), 1))
       /\ next' = BumpAll(next, Edges(s), 1)
       /\ prev' = BumpAll(prev, Backs(s), 1)
  /\ todo' = Tail(todo) /\ seen' = seen + 1 /\ UNCHANGED <<cf, every, phase, files>>
EndTrain ==
  /\ phase = "train" /\ todo = <<>> /\ phase' = "ready"
  /\ left' = AtLeast(left, cf.min) /\ right' = AtLeast(right, cf.min)
  /\ next' = AtLeast(next, 2) /\ prev' = AtLeast(prev, 2)
  /\ UNCHANGED <<cf, todo, seen, every, files>>
WxStep == AddSentence \/ EndTrain

-----------------------------------------------------------------------------
Words == {w \in DOMAIN left : Len(w) <= cf.L} \cup {w \in DOMAIN right : Len(w) <= cf.R}
Frequency(w) == <<Get(left, w, 0), Get(right, w, 0)>>
(* cohesion: <<numerator, denominator>> under the root of degree Len(w) - 1 *)
CohesionL(w) == IF Len(w) > 1 /\ w \in DOMAIN left THEN <<left[w], left[<<w[1]>>]>> ELSE <<0, 1>>
CohesionR(w) == IF Len(w) > 1 /\ w \in DOMAIN right THEN <<right[w], right[<<w[Len(w)]>>]>> ELSE <<0, 1>>
(* counts of the neighbours on each side: extensions inside an eojeol, and
   across the border; a character may appear in both *)
LeftNeighbours(w) ==
  [k \in {<<0, x[1]>> : x \in {y \in DOMAIN right : Len(y) = Len(w) + 1 /\ Tail(y) = w}}
         \cup {<<1, x[1]>> : x \in {y \in DOMAIN prev : y[2] = w}} |->
     IF k[1] = 0 THEN right[<<k[2]>> \o w] ELSE prev[<<k[2], w>>]]
RightNeighbours(w) ==
  [k \in {<<0, x[Len(x)]>> : x \in {y \in DOMAIN left : Len(y) = Len(w) + 1 /\ Prefix(y, Len(w)) = w}}
         \cup {<<1, x[2]>> : x \in {y \in DOMAIN next : y[1] = w}} |->
     IF k[1] = 0 THEN left[w \o <<k[2]>>] ELSE next[<<w, k[2]>>]]
Variety(f) == Cardinality(DOMAIN f)

(* the tables over all words *)
LeftRoots == {w \in {Tail(y) : y \in DOMAIN right} \cup {y[2] : y \in DOMAIN prev} : Len(w) >= 1 /\ Len(w) <= cf.R}
RightRoots == {w \in {Prefix(y, Len(y) - 1) : y \in DOMAIN left} \cup {y[1] : y \in DOMAIN next} : Len(w) >= 1 /\ Len(w) <= cf.L}
AllLeft(w) == IF w \in LeftRoots THEN LeftNeighbours(w) ELSE <<>>
AllRight(w) == IF w \in RightRoots THEN RightNeighbours(w) ELSE <<>>

(* thresholds: cohesion as fraction, entropies in millionths, the drop rate as
   fraction; a value within rounding distance of its threshold may go either way *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
CohCmp(c, low, n) == c[1] * Pow(low[2], n - 1) - c[2] * Pow(low[1], n - 1)   \* < 0: below
Frequent(w) == Max2(Get(left, w, 0), Get(right, w, 0)) >= cf.min
Surely(w) ==
  /\ Frequent(w)
  /\ Variety(AllLeft(w)) >= cf.avl /\ Variety(AllRight(w)) >= cf.avr
  /\ cf.bel = 0 \/ Entropy(AllLeft(w)) > cf.bel + EntropyError
  /\ cf.ber = 0 \/ Entropy(AllRight(w)) > cf.ber + EntropyError
  /\ Len(w) >= 2 => /\ cf.cl[1] = 0 \/ CohCmp(CohesionL(w), cf.cl, Len(w)) > 0
                    /\ cf.cr[1] = 0 \/ CohCmp(CohesionR(w), cf.cr, Len(w)) > 0
Maybe(w) ==
  /\ Frequent(w)
  /\ Variety(AllLeft(w)) >= cf.avl /\ Variety(AllRight(w)) >= cf.avr
  /\ Entropy(AllLeft(w)) >= cf.bel - EntropyError
  /\ Entropy(AllRight(w)) >= cf.ber - EntropyError
  /\ Len(w) >= 2 => /\ CohCmp(CohesionL(w), cf.cl, Len(w)) >= 0
                    /\ CohCmp(CohesionR(w), cf.cr, Len(w)) >= 0
(* w is redundant when a kept word one longer nearly always continues it *)
Continues(v, w) == w \in DOMAIN left /\ Get(left, v, 0) * cf.drop[2] > left[w] * cf.drop[1]
Longer(w, S) == {v \in S : Len(v) = Len(w) + 1 /\ Prefix(v, Len(w)) = w}
LegalExtraction(got) ==
  LET may == {w \in Words : Maybe(w)}
      must == {w \in may : Surely(w)}
  IN /\ got \subseteq may
     /\ \A w \in may : cf.subwords /\ (\E v \in Longer(w, must) : Continues(v, w)) => w \notin got
     /\ \A w \in must : ~(cf.subwords /\ \E v \in Longer(w, may) : Continues(v, w)) => w \in got

(* ---- properties ---- *)
(* no string is more frequent than its beginning (ending): ratios are at most one *)
Monotone == phase = "ready" =>
  /\ \A w \in DOMAIN left : Len(w) > 1 => Prefix(w, Len(w) - 1) \in DOMAIN left /\ left[Prefix(w, Len(w) - 1)] >= left[w]
  /\ \A w \in DOMAIN right : Len(w) > 1 => Tail(w) \in DOMAIN right /\ right[Tail(w)] >= right[w]
WithinLengths == /\ \A w \in DOMAIN left : Len(w) <= cf.L + 1
                 /\ \A w \in DOMAIN right : Len(w) <= cf.R
NoRare == phase = "ready" => /\ \A w \in DOMAIN left : left[w] >= cf.min
                             /\ \A w \in DOMAIN right : right[w] >= cf.min
                             /\ \A w \in DOMAIN next : next[w] >= 2
                             /\ \A w \in DOMAIN prev : prev[w] >= 2
(* the extensions of a word never outnumber the word *)
ExtensionsWithin == phase = "ready" => \A w \in DOMAIN left : 
  FoldSet(LAMBDA v, acc : acc + left[v], 0, Longer(w, DOMAIN left)) <= left[w]
EntropyBounds == phase = "ready" => \A w \in Words :
  LET f == RightNeighbours(w) IN
    /\ Entropy(f) >= -EntropyError
    /\ DOMAIN f # {} => Entropy(f) <= Ln(Variety(f)) + EntropyError
=============================================================================

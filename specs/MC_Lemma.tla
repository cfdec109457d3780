------------------------------ MODULE MC_Lemma ------------------------------
(* every way of taking a word apart, and what the dictionary-backed lemmatizer keeps *)
EXTENDS Conjugation, TraceIO
CONSTANTS LInitials, LVowels, LFinals, RInitials, RVowels, RFinals, Fronts, Tails
Ls == {f \o <<Syllable(a, v, z)>> : f \in Fronts, a \in LInitials, v \in LVowels, z \in LFinals}
Rs == {<<Syllable(x, y, z)>> \o t : x \in RInitials, y \in RVowels, z \in RFinals, t \in Tails} \cup {<<>>}
FrontsQ == {<<>>, <<sGEU>>}
TailsQ == {<<>>, <<sRYEO>>}
FrontsT == {<<>>, <<sA>>, <<sPU>>, <<sGEU>>}
TailsT == {<<>>, <<sRYEO>>, <<sDA>>}
(* words of the kinds the lemmatizer exists for, with dictionaries holding some of the readings *)
Words == {<<44396, 47476>>, <<44404, 47084>>, <<48512, 50612>>, <<54812, 45796>>, <<44536, 47000>>, <<54140, 49436>>, <<50788, 50612>>,
          <<47784, 50520, 45796>>, <<54028, 46976, 47732>>, <<51312, 49436>>, <<51077, 45768, 45796>>, <<46020, 50892>>, <<44032, 46972>>}
Parts(w) == UNION {Lemmas(SubSeq(w, 1, i), SubSeq(w, i + 1, Len(w)), <<>>) : i \in 1..Len(w)}
Init == CjInit
DoLemma == step = "idle" /\ \E l \in Ls, r \in Rs : Ask([fn |-> "lemma", l |-> l, r |-> r, pre |-> <<>>])
DoChat == step = "idle" /\ \E l \in Ls, r \in {<<>>, <<sA>>} : Ask([fn |-> "lemmachat", l |-> l, r |-> r, pre |-> <<>>])
DoAll == step = "idle" /\ \E w \in Words : Ask([fn |-> "all", word |-> w, pre |-> <<>>])
DoKnown == step = "idle" /\ \E w \in Words : \E ss \in SUBSET {p[1] : p \in Parts(w)}, es \in SUBSET {p[2] : p \in Parts(w)}, only \in BOOLEAN :
  Cardinality(ss) <= 2 /\ Cardinality(es) <= 2 /\ Ask([fn |-> "known", word |-> w, pre |-> <<>>, stems |-> ss, endings |-> es, only |-> only])
(* words grown from a stem and an ending *)
GrowStems == {<<Syllable(a, v, z)>> : a \in LInitials, v \in LVowels \ {vAE, vE, vWA, vWO}, z \in {Blank, D, RR, BB, S, HH}} \cup {<<sGEU, sREU>>, <<sGEU, sEU>>, <<sPU>>, <<sBEOS>>}
Covered(s, e) ==
  LET w == View(s, e) IN
  /\ ~(Len(e) >= 2 /\ e[2] = sRA)
  /\ \/ w.open \in {sA, sEO} /\ (w.f \in {D, BB, S} \/ (w.f = Blank /\ w.v \in {vO, vU, vEU, vI} /\ w.last # sREU))
     \/ w.lone /\ w.f = Blank
     \/ ~w.lone /\ w.x # O /\ w.f # HH
DoGrow == step = "idle" /\ \E s \in GrowStems, e \in {r \in Rs : r # <<>>} \cup {<<NN>>, <<RR, sDA>>, <<SS, sDA>>, <<M>>, <<BB, sDA>>} :
  \E x \in Conj(s, e, FALSE) : Ask([fn |-> "all", word |-> x, pre |-> <<>>, s |-> s, e |-> e])
(* a reading given in advance is used only when it conjugates to the word *)
DoPre == step = "idle" /\ \E p \in {<<<<44536, 47000>>, <<44536, 47111>>, <<50500>>>>, <<<<48520, 50612>>, <<48533>>, <<50612>>>>, <<<<44536>>, <<47000>>, <<45796>>>>} :
  \E i \in 1..Len(p[1]) : LET l == SubSeq(p[1], 1, i)  r == SubSeq(p[1], i + 1, Len(p[1])) IN
    Ask([fn |-> "lemma", l |-> l, r |-> r, pre |-> (<<l, r>> :> {<<p[2], p[3]>>})])
Next == DoLemma \/ DoChat \/ DoAll \/ DoKnown \/ DoPre \/ DoGrow \/ Answer
Spec == Init /\ [][Next]_cjvars
(* whatever conjugation gives is found again, for the stems and endings the rules cover *)
Recovers == (step = "done" /\ req.fn = "all" /\ "s" \in DOMAIN req /\ Covered(req.s, req.e)) => <<req.s, req.e>> \in out
ChatAddsOnly == (step = "done" /\ req.fn = "lemmachat") => Lemmas(req.l, req.r, req.pre) \subseteq out
KnownWithinAll == (step = "done" /\ req.fn = "known") => out \subseteq AllLemmas(req.word, req.pre)
PreList == IF req.fn \in {"lemma", "lemmachat", "all", "known"} THEN [k \in 1..Cardinality(DOMAIN req.pre) |-> LET q == ListOf(DOMAIN req.pre)[k] IN <<q, ListOf(req.pre[q])>>] ELSE <<>>
Emit == step = "done" => Case([fn |-> req.fn, req |-> [req EXCEPT !.pre = PreList], out |-> ListOf(out)])
=============================================================================

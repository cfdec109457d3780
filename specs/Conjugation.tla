---------------------------- MODULE Conjugation ----------------------------
(* How a Korean stem and an ending grow together (regular and irregular      *)
(* conjugation), and how a surface form is taken apart again.  One operator  *)
(* per rule; each gives the surface forms (or stem/ending pairs) it derives. *)
EXTENDS HangleChars

(* letters *)
G == 12593  NN == 12596  D == 12599  RR == 12601  M == 12609  BB == 12610  S == 12613  SS == 12614  O == 12615
K == 12619  P == 12621  HH == 12622
vA == 12623  vAE == 12624  vYA == 12625  vEO == 12627  vE == 12628  vYEO == 12629  vO == 12631  vWA == 12632
vYO == 12635  vU == 12636  vWO == 12637  vYU == 12640  vEU == 12641  vI == 12643
(* syllables *)
sDA == 45796      \* 다
sREU == 47476     \* 르
sPU == 54392      \* 푸
sGU == 44396      \* 구
sA == 50500       \* 아
sEO == 50612      \* 어
sRA == 46972      \* 라
sO == 50724       \* 오
sU == 50864       \* 우
sWA == 50752      \* 와
sWO == 50892      \* 워
sGA == 44032      \* 가
sHA == 54616      \* 하
sJOH == 51339     \* 좋
sNOH == 45459     \* 놓
sBEOS == 48279    \* 벗
sEU == 51004      \* 으
sRYEO == 47140    \* 려
sGEU == 44536     \* 그
sREOH == 47111    \* 렇
Keeps == {45813, 44273, 44637, 47213}   \* 답 곱 깝 롭: 아 after them still gives 워

Positive == {vA, vYA, vO, vYO}
Negative == {vEO, vYEO, vU, vYU}
Neuter == {vEU, vI}
ToNegative(v) == CASE v = vA -> vEO [] v = vYA -> vYEO [] v = vO -> vU [] v = vYO -> vYU
ToPositive(v) == CASE v = vEO -> vA [] v = vYEO -> vYA [] v = vU -> vO [] v = vYU -> vYO

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
EndsIn(s, p) == EndsWith(s, p)
(* the last syllable of s with another final, or another vowel and final *)
WithFinal(s, f) == Front(s) \o <<Syllable(Initial(Last(s)), Vowel(Last(s)), f)>>
WithEnd(s, v, f) == Front(s) \o <<Syllable(Initial(Last(s)), v, f)>>

(* what the rules look at: stem s with last letters a v f, ending e with
   first letters x y z (y blank for a lone consonant) *)
View(s, e) ==
  LET l == Letters(Last(s))
      r == Letters(e[1])
  IN [s |-> s, e |-> e, a |-> l[1], v |-> l[2], f |-> l[3], last |-> Last(s),
      x |-> r[1], y |-> r[2], z |-> r[3], lone |-> r[2] = Blank,
      (* the first syllable of the ending without its final *)
      open |-> IF r[2] = Blank THEN e[1] ELSE Syllable(r[1], r[2], Blank),
      tail |-> Tail(e)]
(* the ending without its first syllable, the final of which stays at v *)
Contract(w, v) == WithEnd(w.s, v, w.z) \o w.tail

(* -다 is just added *)
RuleDa(w) == IF w.e[1] = sDA THEN {w.s \o w.e} ELSE {}
(* ㄷ: 깨닫 + 아 -> 깨달아, and regular 받 + 아 -> 받아 *)
RuleD(w) == IF w.f = D /\ w.x = O THEN {WithFinal(w.s, RR) \o w.e, w.s \o w.e} ELSE {}
(* 르: 구르 + 어 -> 굴러 *)
RuleReu(w) ==
  IF w.last = sREU /\ Len(w.s) >= 2 /\ ~EndsIn(w.s, <<sPU, sREU>>) /\ w.open \in {sA, sEO}
  THEN {WithFinal(Front(w.s), RR) \o <<Syllable(RR, w.y, w.z)>> \o w.tail} ELSE {}
(* ㅂ: 더럽 + 어 -> 더러워, 곱 + 아 -> 고와, 아름답 + 아 -> 아름다워, 돕 + 울까 -> 도울까 *)
RuleB(w) ==
  IF w.f # BB THEN {}
  ELSE IF w.open \in {sA, sEO}
  THEN LET v == IF w.open = sEO \/ (Len(w.s) >= 2 /\ w.last \in Keeps) THEN vWO ELSE vWA
       IN {WithFinal(w.s, Blank) \o <<Syllable(O, v, w.z)>> \o w.tail}
  ELSE IF w.x = O THEN {WithFinal(w.s, Blank) \o w.e} ELSE {}
(* an ending that begins with a lone ㄴ ㄹ ㅁ ㅂ ㅆ: 이 + ㅂ니다 -> 입니다 *)
RuleFinal(w) == IF w.lone /\ w.x \in {NN, RR, M, BB, SS} THEN {WithFinal(w.s, w.x) \o w.tail} ELSE {}
(* ㅅ: 붓 + 어 -> 부어, but 벗 + 어 -> 벗어 *)
RuleS(w) == IF w.f = S /\ w.x = O
            THEN {(IF w.last = sBEOS THEN w.s ELSE WithFinal(w.s, Blank)) \o w.e} ELSE {}
(* 우: 푸 + 어 -> 퍼, 푸 + 었다 -> 펐다, 주 + 었다 -> 줬다 *)
RuleU(w) == IF w.v = vU /\ w.f = Blank /\ w.x = O /\ w.y = vEO
            THEN {Contract(w, IF w.last = sPU THEN vEO ELSE vWO)} ELSE {}
(* 오: 오 + 았어 -> 왔어 *)
RuleO(w) == IF w.v = vO /\ w.f = Blank /\ w.x = O /\ w.y = vA THEN {Contract(w, vWA)} ELSE {}
(* ㅡ: 끄 + 어 -> 꺼, 모으 + 았다 -> 모았다; not after ㄹ *)
RuleEu(w) ==
  IF w.v = vEU /\ w.f = Blank /\ w.x = O
  THEN IF w.a = O /\ Len(w.s) > 1 THEN {Front(w.s) \o w.e}
       ELSE IF w.a # RR THEN {Contract(w, w.y)} ELSE {}
  ELSE {}
(* -어라, -아라 *)
RuleRa(w) ==
  IF Len(w.e) >= 2 /\ w.e[1] \in {sA, sEO} /\ w.e[2] = sRA
  THEN {IF w.last = sO THEN Front(w.s) \o <<sWA>> \o w.tail
        ELSE IF w.last = sU THEN Front(w.s) \o <<sWO>> \o w.tail
        ELSE IF w.last = sGA THEN w.s \o w.tail
        ELSE IF w.v \in Negative THEN w.s \o <<sEO>> \o w.tail
        ELSE w.s \o <<sA>> \o w.tail}
  ELSE {}
(* 러: 이르 + 어 -> 이르러 *)
RuleReo(w) == IF w.last = sREU /\ ~EndsIn(w.s, <<sGU, sREU>>) /\ w.x = O /\ w.y = vEO
              THEN {w.s \o <<Syllable(RR, vEO, w.z)>> \o w.tail} ELSE {}
(* 여: 하 + 았다 -> 하였다, 했다 *)
RuleYeo(w) == IF w.last = sHA /\ w.x = O /\ w.y \in {vA, vEO}
              THEN {w.s \o <<Syllable(O, vYEO, w.z)>> \o w.tail, Contract(w, vAE)} ELSE {}
(* ㅎ is dropped: 파랗 + 면 -> 파라면, but 좋, 놓 keep it *)
RuleHDrop(w) == IF w.f = HH /\ ~w.lone
                THEN {(IF w.last \in {sJOH, sNOH} THEN w.s ELSE WithFinal(w.s, Blank)) \o w.e} ELSE {}
(* ㅎ is contracted: 파랗 + 았다 -> 파랬다, 시퍼렇 + 었다 -> 시퍼렜다 *)
RuleHJoin(w) == IF w.f = HH /\ w.last # sJOH /\ w.x = O /\ w.y \in {vA, vEO}
                THEN {Contract(w, IF w.y = vA THEN vAE ELSE vE)} ELSE {}
(* ㅎ + 네: both 파랗네 and 파라네 *)
RuleHNe(w) == IF w.f = HH /\ w.x = NN /\ ~w.lone THEN {w.s \o w.e} ELSE {}
(* 이 + 어 -> 여: 만지 + 었어 -> 만졌어, 만지었어 *)
RuleI(w) == IF w.open = sEO /\ w.v = vI /\ w.f = Blank THEN {Contract(w, vYEO), w.s \o w.e} ELSE {}

Irregular(w) ==
  RuleDa(w) \cup RuleD(w) \cup RuleReu(w) \cup RuleB(w) \cup RuleFinal(w) \cup RuleS(w) \cup RuleU(w)
  \cup RuleO(w) \cup RuleEu(w) \cup RuleRa(w) \cup RuleReo(w) \cup RuleYeo(w) \cup RuleHDrop(w)
  \cup RuleHJoin(w) \cup RuleHNe(w) \cup RuleI(w)
(* no rule: 가 + 아 -> 가, otherwise plain concatenation *)
Regular(w) == IF w.lone THEN {}
              ELSE IF w.f = Blank /\ w.x = O /\ w.y = w.v THEN {Contract(w, w.v)} ELSE {w.s \o w.e}
(* vowel harmony: the first vowel of the ending is made to agree *)
Harmonic(s, e) ==
  LET w == View(s, e)
      y1 == IF w.f # BB /\ w.v \in Positive /\ w.x = O /\ w.y \in Negative THEN ToPositive(w.y) ELSE w.y
      y2 == IF w.f # BB /\ w.v \in Negative /\ w.x = O /\ y1 \in Positive THEN ToNegative(y1) ELSE y1
      y3 == IF w.v \in Neuter /\ y2 \in Positive THEN ToNegative(y2) ELSE y2
  IN IF w.lone \/ y3 = w.y THEN e ELSE <<Syllable(w.x, y3, w.z)>> \o w.tail
Conj(s, e, harmony) ==
  LET w == View(s, IF harmony THEN Harmonic(s, e) ELSE e)
      c == Irregular(w)
  IN IF c # {} THEN c ELSE Regular(w)
(* in chat any lone consonant may become the final; no ending: the stem itself *)
ConjChat(s, e, harmony) ==
  IF e = <<>> THEN {s}
  ELSE Conj(s, e, harmony) \cup (IF Letters(e[1])[2] = Blank THEN {WithFinal(s, e[1]) \o Tail(e)} ELSE {})

-----------------------------------------------------------------------------
(* the left parts under which a stem may appear in an eojeol *)
StemForms(s) ==
  LET l == Letters(Last(s))
      a == l[1]   v == l[2]   f == l[3]
  IN {s}
  \cup (IF f = D THEN {WithFinal(s, RR)} ELSE {})
  \cup (IF Last(s) = sREU /\ Len(s) >= 2 THEN {WithFinal(Front(s), RR)} ELSE {})
  \cup (IF f = BB THEN {WithFinal(s, Blank)} ELSE {})
  \cup (IF f = Blank THEN {WithFinal(s, z) : z \in {NN, RR, BB, SS}} ELSE {})
  \cup (IF f = S /\ Last(s) # sBEOS THEN {WithFinal(s, Blank)} ELSE {})
  \cup (IF v = vU /\ f = Blank THEN {WithEnd(s, IF Last(s) = sPU THEN vEO ELSE vWO, z) : z \in {Blank, SS}} ELSE {})
  \cup (IF v = vO /\ f = Blank THEN {WithEnd(s, vWA, z) : z \in {Blank, SS}} ELSE {})
  \cup (IF v = vEU /\ f = Blank
        THEN {WithEnd(s, vEO, z) : z \in {Blank, SS}} \cup (IF a = O /\ Len(s) > 1 THEN {Front(s)} ELSE {}) ELSE {})
  \cup (IF Last(s) = sHA THEN {WithEnd(s, vAE, z) : z \in {Blank, SS}} ELSE {})
  \cup (IF f = HH /\ Last(s) # sJOH
        THEN {WithFinal(s, z) : z \in {Blank, NN, RR, SS}} \cup {WithEnd(s, vAE, SS)} ELSE {})
  \cup (IF v = vI /\ f = Blank THEN {WithEnd(s, vYEO, SS)} ELSE {})

-----------------------------------------------------------------------------
(* taking a surface form apart at a given place: l + r -> <<stem, ending>> *)
Inverse(l, r) ==
  LET p == Letters(Last(l))
      a == p[1]   v == p[2]   f == p[3]
      q == IF r = <<>> THEN <<0, 0, 0>> ELSE Letters(r[1])
      ropen == IF r = <<>> THEN 0 ELSE Syllable(q[1], q[2], Blank)
      rest == IF r = <<>> THEN <<>> ELSE Tail(r)
      NewFirst(y, z) == <<Syllable(O, y, z)>>
  IN {<<l, r>>}
  \cup (IF f = RR /\ q[1] = O THEN {<<WithFinal(l, D), r>>} ELSE {})
  \cup (IF f = RR /\ q[1] = RR /\ q[2] \in {vEO, vA}
        THEN {<<WithFinal(l, Blank) \o <<sREU>>, NewFirst(q[2], q[3]) \o rest>>} ELSE {})
  \cup (IF f = Blank
        THEN {<<WithFinal(l, BB),
                IF ropen = sWO THEN NewFirst(vEO, q[3]) \o rest
                ELSE IF ropen = sWA THEN NewFirst(vA, q[3]) \o rest
                ELSE IF rest # <<>> /\ rest[1] = sRYEO THEN NewFirst(vU, q[3]) \o rest
                ELSE r>>} ELSE {})
  \cup (IF f \in {NN, RR, M, BB, SS}
        THEN {<<WithFinal(l, z), <<f>> \o r>> : z \in {Blank, RR, BB, HH} \ {f}} ELSE {})
  \cup (IF f = Blank /\ q[1] = O THEN {<<WithFinal(l, S), r>>} ELSE {})
  \cup (IF a = P /\ v = vEO THEN {<<WithEnd(l, vU, Blank), NewFirst(vEO, f) \o r>>} ELSE {})
  \cup (IF v = vWO THEN {<<WithEnd(l, vU, Blank), NewFirst(vEO, f) \o r>>} ELSE {})
  \cup (IF v = vWA THEN {<<WithEnd(l, vO, Blank), NewFirst(vA, f) \o r>>} ELSE {})
  \cup (IF v \in {vEO, vA} THEN {<<WithEnd(l, vEU, Blank), NewFirst(v, f) \o r>>} ELSE {})
  \cup (IF f = Blank /\ q[1] = O /\ q[2] \in {vA, vEO} THEN {<<l \o <<sEU>>, r>>} ELSE {})
  \cup (IF a = HH /\ v = vAE THEN {<<WithEnd(l, vA, Blank), NewFirst(vA, f) \o r>>} ELSE {})
  \cup (IF f \in {Blank, NN, RR, BB, SS}
        THEN (IF v \in {vA, vEO} THEN {<<WithFinal(l, HH), IF f = Blank THEN r ELSE <<f>> \o r>>} ELSE {})
             \cup (IF v \in {vAE, vE}
                   THEN {<<IF Len(l) >= 2 /\ l[Len(l) - 1] = sGEU /\ a = RR THEN Front(l) \o <<sREOH>>
                           ELSE WithEnd(l, IF v = vE THEN vEO ELSE vA, HH),
                           NewFirst(IF v = vE THEN vEO ELSE vA, f) \o r>>} ELSE {})
        ELSE {})
  \cup (IF v = vYEO /\ f \in {SS, S, Blank} THEN {<<WithEnd(l, vI, Blank), NewFirst(vEO, f) \o r>>} ELSE {})
(* an irregular way of taking apart counts when conjugating gives the word back;
   an ending is not empty and its first syllable does not end with ㅎ *)
Verified(l, r, cands) ==
  {c \in cands : c[2] # <<>> /\ Letters(c[2][1])[3] # HH /\ (l \o r) \in Conj(c[1], c[2], FALSE)}
(* pre: <<l, r>> -> set of further pairs *)
Lemmas(l, r, pre) == Verified(l, r, Inverse(l, r) \cup Get(pre, <<l, r>>, {}))
ChatFinals == {D, BB, S, O, K, HH}
LemmasChat(l, r, pre) ==
  Lemmas(l, r, pre) \cup
  (IF r = <<>> /\ Letters(Last(l))[3] \in ChatFinals THEN Lemmas(WithFinal(l, Blank), r, pre) ELSE {})
AllLemmas(word, pre) == UNION {Lemmas(SubSeq(word, 1, i), SubSeq(word, i + 1, Len(word)), pre) : i \in 1..Len(word)}
Known(word, stems, endings, pre, onlystem) ==
  {c \in AllLemmas(word, pre) : c[1] \in stems /\ (onlystem \/ c[2] \in endings)}

-----------------------------------------------------------------------------
(* one request: [fn, s, e, harmony] or [fn, l, r, pre] or [fn, word, ...] *)
VARIABLES req, out, step
cjvars == <<req, out, step>>
CjInit == req = [fn |-> "none"] /\ out = {} /\ step = "idle"
Ask(q) == step = "idle" /\ req' = q /\ out' = {} /\ step' = "asked"
Answer ==
  /\ step = "asked" /\ step' = "done" /\ UNCHANGED req
  /\ out' = CASE req.fn = "conj" -> Conj(req.s, req.e, req.harmony)
              [] req.fn = "conjchat" -> ConjChat(req.s, req.e, req.harmony)
              [] req.fn = "forms" -> StemForms(req.s)
              [] req.fn = "lemma" -> Lemmas(req.l, req.r, req.pre)
              [] req.fn = "lemmachat" -> LemmasChat(req.l, req.r, req.pre)
              [] req.fn = "all" -> AllLemmas(req.word, req.pre)
              [] req.fn = "known" -> Known(req.word, req.stems, req.endings, req.pre, req.only)
Grown == step = "done" /\ req.fn \in {"conj", "conjchat"} /\ req.e # <<>>
WithinParts == Grown => \A x \in out :
  /\ Len(x) >= Len(req.s) + Len(req.e) - 2 /\ Len(x) <= Len(req.s) + Len(req.e)
  /\ StartsWith(x, SubSeq(req.s, 1, Len(req.s) - 2)) /\ EndsWith(x, Tail(req.e))
WellFormed == Grown => \A x \in out : x # <<>> /\ \A i \in 1..Len(x) : IsSyllable(x[i]) \/ (i > 1 /\ x[i] \in SeqRange(req.e))
AlwaysAForm == (Grown /\ IsSyllable(req.e[1])) => out # {}
HarmonyStable == (Grown /\ req.harmony) => Harmonic(req.s, Harmonic(req.s, req.e)) = Harmonic(req.s, req.e)
AgreesWithOne == (Grown /\ req.harmony /\ Harmonic(req.s, req.e) = req.e /\ req.fn = "conj") => out = Conj(req.s, req.e, FALSE)
(* every pair found conjugates to the word, and plain concatenations are found *)
Sound == (step = "done" /\ req.fn \in {"lemma", "all", "known"}) =>
  \A c \in out : (IF req.fn = "lemma" THEN req.l \o req.r ELSE req.word) \in Conj(c[1], c[2], FALSE)
PlainFound == (Grown /\ req.fn = "conj" /\ ~req.harmony /\ IsSyllable(req.e[1]) /\ (req.s \o req.e) \in out /\ Final(req.e[1]) # HH) =>
  <<req.s, req.e>> \in Lemmas(req.s, req.e, <<>>)
OnlyKnown == (step = "done" /\ req.fn = "known") => \A c \in out : c[1] \in req.stems /\ (req.only \/ c[2] \in req.endings)
=============================================================================

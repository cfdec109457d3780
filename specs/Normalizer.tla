----------------------------- MODULE Normalizer -----------------------------
(* Text normalization: every function is a sequence of passes over the text. *)
(* A pass is a record [p |-> kind, ...].                                     *)
EXTENDS HangleChars

VARIABLES txt,     \* the text so far
          todo,    \* passes still to be made
          wordy    \* the characters regular expressions count as word characters
nmvars == <<txt, todo, wordy>>

Letter(c) == IsLatin(c)
(* characters of the general text filter *)
Quoting == {33, 34, 39, 40, 41, 44, 46, 63, 91, 93, 123, 125}
TextChar(c) == IsHangul(c) \/ IsLatin(c) \/ IsDigit(c) \/ c \in Quoting
InClass(n, c) ==
  CASE n = "hangle" -> IsHangul(c)
    [] n = "hangle number" -> IsHangul(c) \/ IsDigit(c)
    [] n = "text" -> TextChar(c)
    [] n = "not alphabet" -> ~IsLatin(c)
    [] n = "not number" -> ~IsDigit(c)
    [] n = "not punctuation" -> c \notin {44, 46, 63, 33}
    [] n = "not symbol" -> c \notin {40, 41, 91, 93, 123, 125, 96}
Keep(s, n) == [i \in 1..Len(s) |-> IF InClass(n, s[i]) THEN s[i] ELSE 32]
(* hangle.normalize: the classes asked for, and extra characters *)
KeepAsked(s, e, n, p, extra) ==
  [i \in 1..Len(s) |->
     LET c == s[i]
     IN IF \/ c = 32 \/ IsHangul(c) \/ (e /\ IsLatin(c)) \/ (n /\ IsDigit(c)) \/ (p /\ IsPunct(c))
           \/ c \in extra
        THEN c ELSE 32]

(* runs of white space become one blank *)
Collapse(s) ==
  LET f(i) == IF ~White(s[i]) THEN <<s[i]>>
              ELSE IF i > 1 /\ White(s[i - 1]) THEN <<>> ELSE <<32>>
  IN Concat([i \in 1..Len(s) |-> f(i)])
Strip(s) ==
  LET body == {i \in 1..Len(s) : ~White(s[i])}
  IN IF body = {} THEN <<>>
     ELSE SubSeq(s, CHOOSE i \in body : \A j \in body : i <= j, CHOOSE i \in body : \A j \in body : i >= j)
JoinWords(ws) == Concat([i \in 1..Len(ws) |-> IF i = 1 THEN ws[i] ELSE <<32>> \o ws[i]])
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)

(* number of copies of the k characters at i standing one after the other *)
RECURSIVE Copies(_, _, _)
Copies(s, k, i) ==
  IF i + 2 * k - 1 <= Len(s) /\ SubSeq(s, i, i + k - 1) = SubSeq(s, i + k, i + 2 * k - 1)
  THEN 1 + Copies(s, k, i + k) ELSE 1
(* from the left, least or more copies of k word characters become n copies *)
RECURSIVE ShortenFrom(_, _, _, _, _, _)
ShortenFrom(s, W, k, least, n, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF i + least * k - 1 <= Len(s) /\ (\A j \in i..(i + k - 1) : s[j] \in W) /\ Copies(s, k, i) >= least
       THEN Times(SubSeq(s, i, i + k - 1), n) \o ShortenFrom(s, W, k, least, n, i + k * Copies(s, k, i))
       ELSE <<s[i]>> \o ShortenFrom(s, W, k, least, n, i + 1)
Shorten(s, W, k, least, n) == ShortenFrom(s, W, k, least, n, 1)

(* letters fused into a syllable next to the same lone letters are split off *)
Split1(s, i) ==
  LET c == s[i]
      prevJaum == i > 1 /\ IsJaum(s[i - 1])
      nextJaum == i < Len(s) /\ IsJaum(s[i + 1])
      nextMoum == i < Len(s) /\ IsMoum(s[i + 1])
      open == Final(c) = Blank
  IN IF ~IsSyllable(c) THEN <<c>>
     ELSE IF prevJaum /\ nextMoum
          THEN IF Initial(c) = s[i - 1] /\ Vowel(c) = s[i + 1] /\ open THEN <<Initial(c), Vowel(c)>> ELSE <<c>>
     ELSE IF nextJaum THEN IF Final(c) = s[i + 1] THEN <<WithoutFinal(c), Final(c)>> ELSE <<c>>
     ELSE IF prevJaum THEN IF Initial(c) = s[i - 1] /\ open THEN <<Initial(c), Vowel(c)>> ELSE <<c>>
     ELSE <<c>>
SplitEmoticons(s) == Concat([i \in 1..Len(s) |-> Split1(s, i)])
(* the tokenizer's variant looks at the next character only *)
Split2(s, i) ==
  LET c == s[i]
      d == s[i + 1]
  IN IF i = Len(s) THEN <<c>>
     ELSE IF ~IsSyllable(c) \/ ~IsHangul(d) THEN <<c>>
     ELSE IF IsJaum(d) /\ Final(c) = d THEN <<WithoutFinal(c), d>>
     ELSE IF IsMoum(d) /\ Final(c) = Blank /\ Vowel(c) = d THEN <<Initial(c), Vowel(c)>>
     ELSE <<c>>
SplitEmoji(s) == Concat([i \in 1..Len(s) |-> Split2(s, i)])

(* up to the last Hangul character *)
UpToHangul(s) ==
  LET H == {i \in 1..Len(s) : IsHangul(s[i])}
  IN IF H = {} THEN <<>> ELSE Strip(SubSeq(s, 1, CHOOSE i \in H : \A j \in H : j <= i))

Pass(s, W, q) ==
  CASE q.p = "keep" -> Keep(s, q.class)
    [] q.p = "keep asked" -> KeepAsked(s, q.e, q.n, q.q, SeqRange(q.extra))
    [] q.p = "collapse" -> Collapse(s)
    [] q.p = "strip" -> Strip(s)
    [] q.p = "shorten" -> Shorten(s, W, q.k, q.least, q.n)
    [] q.p = "emoticon" -> SplitEmoticons(s)
    [] q.p = "to hangul" -> UpToHangul(s)
    [] q.p = "words to hangul" ->
         LET ws == SplitWhite(s)
             cut == [i \in 1..Len(ws) |-> UpToHangul(ws[i])]
         IN JoinWords(SelectSeq(cut, LAMBDA w : w # <<>>))
    [] q.p = "words of tokens" ->
         LET ws == SplitWhite(s)
             f(w) == LET e == SplitEmoji(w)
                     IN IF q.n = 0 THEN e
                        ELSE Shorten(Shorten(Shorten(Shorten(e, W, 4, 4, q.n), W, 3, 4, q.n), W, 2, 4, q.n), W, 1, 4, q.n)
         IN JoinWords([i \in 1..Len(ws) |-> f(ws[i])])

ToKeep(class) == [p |-> "keep", class |-> class]
Squeeze == <<[p |-> "collapse"], [p |-> "strip"]>>
Repeat(n, least) == IF n > 0 THEN <<[p |-> "shorten", k |-> 1, least |-> least, n |-> n]>> ELSE <<>>
(* the passes of a function; o holds its options *)
Passes(fn, o) ==
  CASE fn = "only_hangle" -> <<ToKeep("hangle")>> \o Squeeze
    [] fn = "only_hangle_number" -> <<ToKeep("hangle number")>> \o Squeeze
    [] fn = "only_text" -> <<ToKeep("text")>> \o Squeeze
    [] fn = "remove_doublespace" -> <<[p |-> "collapse"]>>
    [] fn = "normalize" ->
         <<ToKeep("text")>>
         \o (IF o.a THEN <<>> ELSE <<ToKeep("not alphabet")>>)
         \o (IF o.n THEN <<>> ELSE <<ToKeep("not number")>>)
         \o (IF o.q THEN <<>> ELSE <<ToKeep("not punctuation")>>)
         \o (IF o.s THEN <<>> ELSE <<ToKeep("not symbol")>>)
         \o Repeat(o.r, 3) \o Squeeze
    [] fn = "repeat_normalize" -> Repeat(o.r, 3) \o Squeeze
    [] fn = "emoticon_normalize" -> <<[p |-> "emoticon"]>> \o Repeat(o.r, 3) \o Squeeze
    [] fn = "remain_hangle_on_last" -> <<[p |-> "to hangul"]>>
    [] fn = "normalize_sent_for_lrgraph" ->
         <<ToKeep("text"), ToKeep("not symbol"), [p |-> "words to hangul"]>>
    [] fn = "hangle.normalize" ->
         Repeat(o.r, 4) \o <<[p |-> "keep asked", e |-> o.a, n |-> o.n, q |-> o.q, extra |-> o.x]>> \o Squeeze
    [] fn = "tokenizer.normalize" -> <<[p |-> "words of tokens", n |-> o.r]>>
Functions == {"only_hangle", "only_hangle_number", "only_text", "remove_doublespace", "normalize",
              "repeat_normalize", "emoticon_normalize", "remain_hangle_on_last",
              "normalize_sent_for_lrgraph", "hangle.normalize", "tokenizer.normalize"}

RECURSIVE Run(_, _, _)
Run(s, W, ps) == IF ps = <<>> THEN s ELSE Run(Pass(s, W, Head(ps)), W, Tail(ps))
Apply(fn, o, W, s) == Run(s, W, Passes(fn, o))

Call(fn, o, W, s) == todo = <<>> /\ txt' = s /\ todo' = Passes(fn, o) /\ wordy' = W
DoPass == todo # <<>> /\ txt' = Pass(txt, wordy, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED wordy
Finished == todo = <<>>

-----------------------------------------------------------------------------
(* what a caller relies on; s is the text given, txt the result              *)
Filters == {"only_hangle", "only_hangle_number", "only_text"}
ClassOf(fn) == CASE fn = "only_hangle" -> "hangle" [] fn = "only_hangle_number" -> "hangle number" [] OTHER -> "text"
NoBlankRuns == /\ \A i \in 1..Len(txt) : White(txt[i]) => txt[i] = 32 /\ i > 1 /\ i < Len(txt) /\ ~White(txt[i + 1])
Squeezed(fn) == Finished /\ fn \notin {"remove_doublespace", "remain_hangle_on_last"} => NoBlankRuns
KeptExactly(fn, s) ==
  Finished /\ fn \in Filters =>
    NonWhite(txt) = SelectSeq(s, LAMBDA c : InClass(ClassOf(fn), c) /\ ~White(c))
Idempotent(fn, o, W, s) ==
  Finished /\ fn \in Functions => Apply(fn, o, W, txt) = txt
(* splitting letters off a syllable keeps the sequence of letters *)
Spelt(s) == SelectSeq(Concat([i \in 1..Len(s) |-> IF IsHangul(s[i]) THEN Letters(s[i]) ELSE <<s[i]>>]), LAMBDA c : c # 32)
LettersKept(s) == Spelt(SplitEmoticons(s)) = Spelt(s) /\ Spelt(SplitEmoji(s)) = Spelt(s)
(* a long run is cut to the number asked for, and no run is longer *)
LongestRun(s, W) == LET R == {0} \cup {Copies(s, 1, i) : i \in {j \in 1..Len(s) : s[j] \in W}}
                    IN CHOOSE n \in R : \A m \in R : m <= n
RunsCut(fn, o, W) ==
  Finished /\ fn \in {"repeat_normalize", "emoticon_normalize"} /\ o.r > 0 => LongestRun(txt, W) <= Max2(2, o.r)
=============================================================================

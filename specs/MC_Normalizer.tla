--------------------------- MODULE MC_Normalizer ---------------------------
EXTENDS Normalizer, TraceIO
CONSTANTS MaxText, MaxSplit, Repeats, Group     \* Group: which functions and alphabet
VARIABLES call
vars == <<nmvars, call>>
(* filters: 가 ㅋ a 1 . ' ( - blank tab *)
FilterChars == {44032, 12619, 97, 49, 46, 39, 40, 45, 32, 9}
(* emoticons: ㅋ ㅜ 쿠 크 앜 ㅇ a blank *)
EmoChars == {12619, 12636, 53216, 50500, 50501, 50516, 97, 32}
W == {44032, 12619, 97, 49, 12636, 53216, 50500, 50501, 50516, 12623}
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}
O0 == [a |-> FALSE, n |-> FALSE, q |-> FALSE, s |-> FALSE, r |-> 2, x |-> <<>>]
Give(fn, o, s) == call = <<>> /\ call' = <<fn, o, s>> /\ Call(fn, o, W, s)
F1 == Filters \cup {"remove_doublespace", "remain_hangle_on_last", "normalize_sent_for_lrgraph"}
BeginFilter == call = <<>> /\ Group = "filter" /\ \E fn \in F1, s \in Strings(FilterChars, MaxText) : Give(fn, O0, s)
BeginNormalize ==
  /\ call = <<>> /\ Group = "filter"
  /\ \E a \in BOOLEAN, n \in BOOLEAN, q \in BOOLEAN, y \in BOOLEAN, s \in Strings(FilterChars, MaxText - 1) :
        Give("normalize", [O0 EXCEPT !.a = a, !.n = n, !.q = q, !.s = y, !.r = 0], s)
BeginHangle ==
  /\ call = <<>> /\ Group = "filter"
  /\ \E a \in BOOLEAN, n \in BOOLEAN, q \in BOOLEAN, x \in {<<>>, <<40, 45>>}, s \in Strings(FilterChars, MaxText - 1) :
        Give("hangle.normalize", [O0 EXCEPT !.a = a, !.n = n, !.q = q, !.r = 0, !.x = x], s)
BeginEmoticon ==
  /\ call = <<>> /\ Group = "repeat"
  /\ \E fn \in {"repeat_normalize", "emoticon_normalize", "tokenizer.normalize"}, r \in Repeats,
       s \in Strings(EmoChars, MaxText) : Give(fn, [O0 EXCEPT !.r = r], s)
BeginRepeat ==
  /\ call = <<>> /\ Group = "repeat"
  /\ \E fn \in {"repeat_normalize", "tokenizer.normalize", "normalize", "hangle.normalize"}, r \in {2, 5},
       s \in Strings({12619, 44032}, MaxSplit) : Give(fn, [O0 EXCEPT !.r = r], s)
Init == txt = <<>> /\ todo = <<>> /\ wordy = {} /\ call = <<>>
Step == DoPass /\ UNCHANGED call
Next == BeginFilter \/ BeginNormalize \/ BeginHangle \/ BeginEmoticon \/ BeginRepeat \/ Step
Spec == Init /\ [][Next]_vars
On == call # <<>>
InvSqueezed == On => Squeezed(call[1])
InvKept == On => KeptExactly(call[1], call[3])
InvIdempotent == On /\ Finished /\ Group = "filter" => Idempotent(call[1], call[2], W, call[3])
InvIdempotentRepeat ==
  On /\ Finished /\ Group # "filter" /\ call[2].r <= 2 /\ call[1] = "repeat_normalize" => Idempotent(call[1], call[2], W, call[3])
InvLetters == On /\ Finished /\ Group = "repeat" /\ call[1] # "normalize" => LettersKept(call[3])
InvRuns == On => RunsCut(call[1], call[2], W)
Emit == (On /\ Finished) => Case([fn |-> call[1], o |-> call[2], text |-> call[3], out |-> txt])
=============================================================================

---------------------------- MODULE MC_RegexTok ----------------------------
EXTENDS RegexTok, TraceIO
CONSTANTS MaxText
VARIABLE text
vars == <<rtvars, text>>
(* 1 . - ' s 가 ㅋ ㅏ ! blank *)
Chars == {49, 46, 45, 39, 115, 44032, 12619, 12623, 33, 32}
Texts == UNION {[1..n -> Chars] : n \in 1..MaxText}
Init == queue = <<>> /\ pieces = <<>> /\ stage = 1 /\ out = <<>> /\ text = <<>>
Begin == text = <<>> /\ \E x \in Texts : Call(x) /\ text' = x
DoTake == Take /\ UNCHANGED text
DoApply == ApplyClass /\ UNCHANGED text
DoFinish == Finish /\ UNCHANGED text
Next == Begin \/ DoTake \/ DoApply \/ DoFinish
Spec == Init /\ [][Next]_vars
InvLossless == text # <<>> => Lossless(text)
Emit == (text # <<>> /\ Finished) => Case([text |-> text, out |-> out])
=============================================================================

----------------------------- MODULE MC_Encoder -----------------------------
EXTENDS Encoder, TraceIO
CONSTANTS MaxText, Wide
VARIABLE text
vars == <<envars, text>>
(* 가 힣 갃 ㄱ ㄳ ㅎ ㅏ ㅣ 0 9 blank tab a ㄱ-1 ㅣ+1 가-1 힣+1 *)
Chars == {44032, 55203, 44035, 12593, 12595, 12622, 12623, 12643, 48, 57, 32, 9, 97, 12592, 12644, 44031, 55204}
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText} \cup
         {<<c>> : c \in (0..300) \cup (12500..12700) \cup (IF Wide THEN 44000..55300 ELSE 44000..45700)}
ASSUME Cardinality({Entry(c) : c \in {x \in 0..65535 : Keep(x)}}) = Cardinality({x \in 0..65535 : Keep(x)})
Init == EnInit /\ text = <<-1>>
Begin == text = <<-1>> /\ \E x \in Texts : EncodeCall(x) /\ text' = x
DoEncode == EncodeChar /\ UNCHANGED text
DoEncoded == Encoded /\ UNCHANGED text
DoDecode == DecodeEntry /\ UNCHANGED text
DoDecoded == Decoded /\ UNCHANGED text
Next == Begin \/ DoEncode \/ DoEncoded \/ DoDecode \/ DoDecoded
Spec == Init /\ [][Next]_vars
Started == text # <<-1>>
InvRoundTrip == Started => RoundTrip(text) /\ OnePerChar(text) /\ CleanIsIdempotent(text)
InvFunctions == Started => IsEncode(text) /\ IsDecode /\ NeverUnknown
Emit == stage = "done" => Case([text |-> text, entries |-> entries, decoded |-> decoded])
=============================================================================

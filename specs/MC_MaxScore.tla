---------------------------- MODULE MC_MaxScore ----------------------------
EXTENDS MaxScore, TraceIO
CONSTANTS Chars, MaxText, Words, Scores, MaxLens
VARIABLE text
SomeScores == {16, -16, 8}
SomeWords == {<<97,98>>, <<98,98>>, <<98,97,98>>, <<97>>}
vars == <<msvars, text>>
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
Dicts == UNION {[D -> Scores] : D \in SUBSET Words}
Init == \E d \in Dicts, m \in MaxLens, s \in {0} :
          MSReset(d, m, s) /\ text = <<0>>
AnyCall == text = <<0>> /\ \E x \in Texts : Call(x) /\ text' = x
DoShort == TakeShort /\ UNCHANGED text
DoLong == TakeLong /\ UNCHANGED text
DoPick == Pick /\ UNCHANGED text
DoFill == Fill /\ UNCHANGED text
Next == AnyCall \/ DoShort \/ DoLong \/ DoPick \/ DoFill
Spec == Init /\ [][Next]_vars
InvLossless == text # <<0>> => Lossless(text)
InvSegment == text # <<0>> => IsSegmentation(text)
Emit == (text # <<0>> /\ Finished) =>
          Case([dict |-> [k \in 1..Cardinality(DOMAIN dict) |->
                            LET w == ListOf(DOMAIN dict)[k] IN <<w, dict[w]>>],
                maxlen |-> maxlen, ds |-> ds, text |-> text, out |-> out])
=============================================================================

----------------------------- MODULE MC_NounTok -----------------------------
EXTENDS NounTok, TraceIO
CONSTANTS MaxText
VARIABLE text
vars == <<nvars, text>>
Texts == UNION {[1..n -> {97, 98, 32}] : n \in 1..MaxText}
Tables(W, S) == UNION {[D -> S] : D \in SUBSET W}
Init == /\ kind \in {"L", "M"} /\ queue = <<>> /\ cur = <<>> /\ pos = -1 /\ found = <<>> /\ out = <<>> /\ text = <<>>
        /\ compose = FALSE
        /\ dict \in IF kind = "L" THEN Tables({<<97>>, <<97, 98>>, <<98, 97>>, <<98, 98, 97>>}, {16})
                    ELSE Tables({<<97>>, <<97, 98>>, <<98, 97>>, <<98>>}, {16, 0, 24})
Begin == text = <<>> /\ \E x \in Texts, j \in BOOLEAN : Call(x, j) /\ text' = x
DoTake == Take /\ UNCHANGED text
DoExtend == Extend /\ UNCHANGED text
DoStop == StopL /\ UNCHANGED text
DoMatch == Match /\ UNCHANGED text
Next == Begin \/ DoTake \/ DoExtend \/ DoStop \/ DoMatch
Spec == Init /\ [][Next]_vars
InvPositions == text # <<>> => Positions(text)
Emit == (text # <<>> /\ Finished) =>
  Case([kind |-> kind, dict |-> ListOf({<<w, dict[w]>> : w \in DOMAIN dict}), compose |-> compose,
        text |-> text, out |-> out])
=============================================================================

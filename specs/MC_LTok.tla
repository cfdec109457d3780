------------------------------ MODULE MC_LTok ------------------------------
EXTENDS LTok, TraceIO
CONSTANTS MaxText
VARIABLE text
vars == <<ltvars, text>>
SomeWords == {<<97, 98>>, <<97, 97>>, <<97, 98, 97>>, <<97>>}
SomeScores == {16, -16, 8}
Chars == {97, 98, 32}
Texts == UNION {[1..n -> Chars] : n \in 1..MaxText}
Init == /\ dict \in UNION {[D -> SomeScores] : D \in SUBSET SomeWords} /\ ds \in {0, 10}
        /\ tol = 0 /\ queue = <<>> /\ out = <<>> /\ text = <<>>
Begin == text = <<>> /\ \E x \in Texts, k \in {0, 8, 20} : Call(x, k) /\ text' = x
DoCut == CutEojeol /\ UNCHANGED text
Next == Begin \/ DoCut
Spec == Init /\ [][Next]_vars
InvLossless == text # <<>> => Lossless(text)
Emit == (text # <<>> /\ queue = <<>>) =>
  Case([dict |-> ListOf({<<w, dict[w]>> : w \in DOMAIN dict}), ds |-> ds, tol |-> tol, text |-> text, out |-> out])
=============================================================================

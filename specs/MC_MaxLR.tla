------------------------------ MODULE MC_MaxLR ------------------------------
EXTENDS MaxLR, TraceIO
CONSTANTS MaxText
VARIABLE text
vars == <<mvars, text>>
Tables(W, S) == UNION {[D -> S] : D \in SUBSET W}
Texts == UNION {[1..n -> {97, 98}] : n \in 1..MaxText}
Pars == [dl : Tables({<<97>>, <<97, 98>>, <<97, 98, 97>>}, {40, 120}),
         dr : Tables({<<98>>, <<98, 97>>}, {80}),
         pl : {<<>>}, pr : {<<>>, (<<98>> :> 160)},
         diff : {48}, ratio : {80}, ensl : {80}, ensd : {48}]
Init == /\ par \in {[p EXCEPT !.dr = WithPrefs(p.dr, p.pr)] : p \in Pars} /\ queue = <<>> /\ cur = <<>> /\ cand = <<>> /\ kept = {} /\ picks = {}
        /\ phase = "idle" /\ out = <<>> /\ text = <<>>
Begin == text = <<>> /\ \E x \in Texts : Call(x) /\ text' = x
DoTake == Take /\ UNCHANGED text
DoSubset == Subset /\ UNCHANGED text
DoScore == ScoreAll /\ UNCHANGED text
DoPick == Pick /\ UNCHANGED text
DoFill == Fill /\ UNCHANGED text
Next == Begin \/ DoTake \/ DoSubset \/ DoScore \/ DoPick \/ DoFill
Spec == Init /\ [][Next]_vars
InvLossless == text # <<>> => Lossless(text)
L(f) == ListOf({<<w, f[w]>> : w \in DOMAIN f})
(* every gap or pick is really free of overlap *)
PicksDisjoint == \A x, y \in picks : x = y \/ x[3] <= y[1] \/ y[3] <= x[1]
Emit == (text # <<>> /\ Finished) =>
  Case([dl |-> L(par.dl), dr |-> L(par.dr), pr |-> L(par.pr), text |-> text, out |-> out])
=============================================================================

----------------------------- MODULE MC_Hangle -----------------------------
EXTENDS Hangle, TraceIO
CONSTANTS Last, EmitStep
Init == ch = -1 /\ parts = <<>> /\ again = -1 /\ step = "idle"
DoExamine == step = "idle" /\ \E c \in 0..Last : Examine(c)


Next == DoExamine \/ TakeApart \/ PutTogether
Spec == Init /\ [][Next]_hgvars
(* different syllables have different letters *)
ASSUME Cardinality({Letters(c) : c \in SylFirst..SylLast}) = 11172
ASSUME \A a \in InitialSet, v \in VowelSet, f \in FinalSet : Letters(Syllable(a, v, f)) = <<a, v, f>>
Emit == (step = "done" /\ (IsHangul(ch) \/ ch % EmitStep = 0)) =>
  Case([ch |-> ch, parts |-> parts,
        classes |-> <<IsHangul(ch), IsSyllable(ch), IsJaum(ch), IsMoum(ch), IsDigit(ch), IsLatin(ch), IsPunct(ch)>>])
=============================================================================

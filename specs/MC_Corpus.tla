----------------------------- MODULE MC_Corpus -----------------------------
EXTENDS Corpus, TraceIO
CONSTANTS MaxText
VARIABLES text, header
vars == <<cvars, text, header>>
(* pieces of files: a, blank, two blanks, newline, "a  b" *)
Pieces == {<<97>>, <<32>>, <<32, 32>>, <<10>>, <<97, 32, 32, 98>>}
Init == /\ text = <<>> /\ header = -1 /\ lines = <<>> /\ its = [k \in {} |-> 0]
        /\ opt \in [doc : {-1, 1, 2}, sent : {-1, 1, 2}, bysent : BOOLEAN]
Write == /\ header = -1 /\ Len(text) < MaxText /\ \E p \in Pieces : text' = text \o p
         /\ UNCHANGED <<cvars, header>>
OpenCorpus == /\ header = -1 /\ header' \in {0, 1} /\ lines' = Body(text, header')
              /\ UNCHANGED <<opt, its, text>>
Iterate == /\ header >= 0 /\ DOMAIN its = {} /\ OpenIt(1) /\ UNCHANGED <<text, header>>
Give == /\ DOMAIN its # {} /\ its[1].doc # -1 /\ Advanced(1) /\ UNCHANGED <<text, header>>
Next == Write \/ OpenCorpus \/ Iterate \/ Give
Spec == Init /\ [][Next]_vars
Emit == (DOMAIN its # {} /\ its[1].doc = -1) =>
   Case([text |-> text, header |-> header, opt |-> opt, items |-> Items])
=============================================================================

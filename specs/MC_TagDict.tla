----------------------------- MODULE MC_TagDict -----------------------------
EXTENDS TagDict, TraceIO
CONSTANTS Depth
VARIABLE hist
vars == <<tdvars, hist>>
Tags == {"N", "V"}
A == <<97>>
B == <<97, 98>>
C == <<98, 98, 98>>
Sets == {{}, {A}, {B, C}, {A, B}}
Starts == {"N" :> {A}, ("N" :> {A, B}) @@ ("V" :> {B}), "V" :> {}}
Shown == [dict |-> ListOf({<<g, ListOf(td[g])>> : g \in DOMAIN td}), answer |-> answer]
H(op, g, S, force) == hist' = Append(hist, [op |-> op, g |-> g, ws |-> ListOf(S), force |-> force,
     dict |-> ListOf({<<x, ListOf(td'[x])>> : x \in DOMAIN td'}), answer |-> answer'])
Init == td = <<>> /\ reached = 0 /\ saved = <<>> /\ answer = "ok" /\ hist = <<>>
More == hist # <<>> /\ Len(hist) < Depth
DoNew == hist = <<>> /\ \E f \in Starts : TdNew(f) /\ H("new", "", {}, FALSE)
DoAdd == More /\ \E g \in Tags, S \in Sets, force \in BOOLEAN : TdAdd(g, S, force) /\ H("add", g, S, force)
DoRemove == More /\ \E g \in Tags, S \in Sets \ {{}} : TdRemove(g, S) /\ H("remove", g, S, FALSE)
DoRemoveTag == More /\ \E g \in Tags : TdRemoveTag(g) /\ H("remove_tag", g, {}, FALSE)
DoSave == More /\ DOMAIN saved = {} /\ TdSave("f") /\ H("save", "", {}, FALSE)
DoLoad == More /\ TdLoad("f") /\ H("load", "", {}, FALSE)
Next == DoNew \/ DoAdd \/ DoRemove \/ DoRemoveTag \/ DoSave \/ DoLoad
Spec == Init /\ [][Next]_vars
(* a tag goes only when it is removed or another dictionary is loaded, and a refused call changes nothing *)
Steps == [][/\ (\E g \in DOMAIN td : g \notin DOMAIN td') => hist'[Len(hist')].op \in {"remove_tag", "load"}
            /\ answer' = "refused" => td' = td]_vars
Emit == Len(hist) = Depth => Case([hist |-> hist])
=============================================================================

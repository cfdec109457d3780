---------------------------- MODULE MC_Distance ----------------------------
EXTENDS Distance, TraceIO
CONSTANTS Len1, Len2
(* a b 가 각 나 ㄱ ㅏ *)
Plain == {97, 98, 99}
Han == {44032, 44033, 45208, 12593, 12623, 97}
Strings(S, n) == UNION {[1..k -> S] : k \in 0..n}
Tables == {<<>>, (<<97, 98>> :> 2), (<<97, 98>> :> 15) @@ (<<98, 97>> :> 1), (<<99, 97>> :> 0) @@ (<<97, 97>> :> 5)}
Init == DsInit
Plainly == mode = "idle" /\ \E a \in Strings(Plain, Len1), b \in Strings(Plain, Len1), m \in Tables : Compare(a, b, m, "plain")
Jamo == mode = "idle" /\ \E a \in Strings(Han, Len2), b \in Strings(Han, Len2) : Compare(a, b, <<>>, "jamo")
Next == Plainly \/ Jamo \/ Delete \/ Insert \/ Substitute
Spec == Init /\ [][Next]_dsvars
U(s) == Units(s, 1)
(* emitted by the script that is the cheapest one: its cost is the distance *)
Emit == (Complete /\ paid = DistanceOf(s1, s2)) =>
  Case([s1 |-> s1, s2 |-> s2, kind |-> kind, paid |-> paid, tab |-> ListOf({<<k[1], k[2], tab[k]>> : k \in DOMAIN tab}),
        dot |-> <<Dot(U(s1), U(s1)), Dot(U(s2), U(s2)), Dot(U(s1), U(s2))>>,
        sets |-> <<Both(U(s1), U(s2)), Either(U(s1), U(s2))>>])
InvMetric == (mode = "edit" /\ i1 = 0 /\ i2 = 0) => Metric
CauchySchwarz == (mode = "edit" /\ i1 = 0 /\ i2 = 0) =>
  /\ Dot(U(s1), U(s2)) * Dot(U(s1), U(s2)) <= Dot(U(s1), U(s1)) * Dot(U(s2), U(s2))
  /\ Both(U(s1), U(s2)) <= Either(U(s1), U(s2))
=============================================================================

---------------------------- MODULE MC_PosExtract ----------------------------
EXTENDS PosExtract, TraceIO
CONSTANTS Pool, MaxWords, Counts, Large, Lims
(* 사과 with 는 를 고, 먹고 먹는 먹지 가고, 하는, 가는 (all may be nouns or verbs), 사과하고 *)
PoolQ == {<<49324, 44284, 45716>>, <<49324, 44284, 47484>>, <<49324, 44284, 44256>>, <<49324, 44284>>, <<47673, 44256>>, <<47673, 45716>>, <<44032, 44256>>,
          <<44032, 45716>>, <<49324, 44284, 54616, 44256>>, <<44032>>}
PoolT == PoolQ \cup {<<47673, 51648>>, <<47673, 47484>>, <<44032, 47484>>, <<47673, 51060, 45716>>, <<54616, 44256>>, <<49324, 45716>>}
Tables == [lmax |-> 10, rmax |-> 8, feats |-> [pos |-> {<<45716>>, <<47484>>}, neg |-> {<<51648>>, <<54616, 44256>>}, com |-> {<<44256>>}],
           josa |-> {<<45716>>}, suffix |-> {}, josas |-> {<<45716>>, <<47484>>}, adjs |-> {}, verbs |-> {<<44032>>, <<54616>>}, ends |-> {<<44256>>}]
Lim(n, f) == [Limits EXCEPT !.minc = 1, !.minf = n, !.nounfreq = f, !.predc = 1, !.predfreq = f,
                            !.parts = [@ EXCEPT !.nfreq = 2, !.pfreq = 2, !.nlast = 0, !.elast = 0, !.enoun = 0],
                            !.pred = [@ EXCEPT !.nmin = 1, !.sminf = 1, !.umin = 0, !.hmin = 0]]
LimsQ == {Lim(0, 1), Lim(1, 2), Limits}
LimsT == {Lim(n, f) : n \in {0, 1, 2}, f \in {1, 2}} \cup {Limits}
Real == lim.minc = 2           \* these are the limits of the code: their behaviours are replayed
Init == PoInit
DoMake == \E l \in Lims : Make(l, Tables)
DoCount == at = "idle" /\ \E n \in 1..MaxWords : \E W \in kSubset(n, Pool) : \E f \in [W -> IF Real THEN Large ELSE Counts] : Count(f)
Next == DoMake \/ DoCount \/ FindNouns \/ HandOver \/ Learn \/ FindPredicators
Spec == Init /\ [][Next]_povars
Show(p) == ListOf({<<w, pargs.from[w], ListOf(p[w])>> : w \in DOMAIN p})
Emit == (Finished /\ Real /\ ~punsure) =>
  Case([words |-> LET f == [w \in {k[1] : k \in {k \in DOMAIN norigin : k[2] = <<>>}} |-> norigin[<<w, <<>>>>]] IN ListOf({<<w, f[w]>> : w \in DOMAIN f}),
        kind |-> (IF nnouns = <<>> THEN "" ELSE "nouns ") \o (IF ppreds = <<>> THEN "" ELSE "predicators"),
        nouns |-> ListOf({<<w, nnouns[w]>> : w \in DOMAIN nnouns}), adjs |-> Show(padjs), verbs |-> Show(pverbs)])
=============================================================================

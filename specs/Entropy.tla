------------------------------ MODULE Entropy ------------------------------
(* Entropy of count tables, in fixed point.                                  *)
EXTENDS Text, FiniteSetsExt
SumOf(f) == FoldSet(LAMBDA k, acc : acc + f[k], 0, DOMAIN f)

(* natural logarithm in millionths *)
PrimeLn == (2 :> 693147) @@ (3 :> 1098612) @@ (5 :> 1609438) @@ (7 :> 1945910) @@ (11 :> 2397895) @@ (13 :> 2564949)
  @@ (17 :> 2833213) @@ (19 :> 2944439) @@ (23 :> 3135494) @@ (29 :> 3367296) @@ (31 :> 3433987) @@ (37 :> 3610918)
  @@ (41 :> 3713572) @@ (43 :> 3761200) @@ (47 :> 3850148) @@ (53 :> 3970292) @@ (59 :> 4077537) @@ (61 :> 4110874)
  @@ (67 :> 4204693) @@ (71 :> 4262680) @@ (73 :> 4290459) @@ (79 :> 4369448) @@ (83 :> 4418841) @@ (89 :> 4488636)
  @@ (97 :> 4574711) @@ (101 :> 4615121) @@ (103 :> 4634729) @@ (107 :> 4672829) @@ (109 :> 4691348) @@ (113 :> 4727388)
  @@ (127 :> 4844187) @@ (131 :> 4875197) @@ (137 :> 4919981) @@ (139 :> 4934474) @@ (149 :> 5003946)
RECURSIVE Ln(_)
Ln(n) == IF n = 1 THEN 0
         ELSE LET ps == {p \in DOMAIN PrimeLn : n % p = 0}
              IN IF ps # {} THEN LET p == CHOOSE p \in ps : TRUE IN PrimeLn[p] + Ln(n \div p)
                 ELSE Ln(n - 1) + 2000000 \div (2 * n - 1)        \* no prime factor below 150
(* entropy of a count table, in millionths, up to EntropyError *)
EntropyError == 20
Entropy(f) ==
  IF DOMAIN f = {} THEN 0
  ELSE LET n == SumOf(f)
           \* the sum of f[k] * Ln(f[k]), divided by n without leaving 32 bits
           whole == FoldSet(LAMBDA k, acc : acc + f[k] * (Ln(f[k]) \div n), 0, DOMAIN f)
           rest == FoldSet(LAMBDA k, acc : acc + f[k] * (Ln(f[k]) % n), 0, DOMAIN f)
       IN Ln(n) - whole - rest \div n
=============================================================================

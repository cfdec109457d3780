------------------------------ MODULE MC_Utils ------------------------------
EXTENDS Utils, TraceIO
CONSTANTS Names, Depth, Pieces, MaxPieces, MaxOps, Vectors, MaxVectors, MaxMatrix
VARIABLES ops, kind
vars == <<uvars, ops, kind>>
PiecesQ == {<<98, 10>>, <<97, 32, 10>>, <<32, 10>>, <<97, 98>>, <<44032, 13, 10>>}
PiecesT == PiecesQ \cup {<<12288, 97, 10>>}
VectorsQ == {<<3, 4>>, <<4, 3>>, <<0, 0>>, <<-3, 4>>, <<6, 8>>}
VectorsT == VectorsQ \cup {<<5, 0>>, <<-5, 0>>}
Paths == UNION {[1..n -> Names] : n \in 1..Depth}
Init == UInit /\ ops = <<>> /\ kind \in {"files", "similar", "svd"}
File == kind = "files"
Room == Len(ops) < MaxOps
DoDirs == File /\ Room /\ \E p \in Paths : CheckDirs(p) /\ ops' = Append(ops, <<"dirs", p>>) /\ UNCHANGED kind
DoWrite == /\ File /\ Room /\ Cardinality(DOMAIN files) < 1
           /\ \E p \in {p \in Paths : Len(p) <= 2 /\ p[1] = p[Len(p)]} : \E n \in 0..MaxPieces : \E f \in [1..n -> Pieces] :
                Write(p, Concat(f)) /\ ops' = Append(ops, <<"write", p, Concat(f)>>) /\ UNCHANGED kind
DoSort == File /\ Room /\ \E p \in DOMAIN files : SortFile(p) /\ ops' = Append(ops, <<"sort", p>>) /\ UNCHANGED kind
DoSimilar == kind = "similar" /\ ops = <<>> /\ \E n \in 1..MaxVectors : \E m \in [1..n -> Vectors] : \E k \in {-1, 2} :
               Similar(m, 1, k) /\ ops' = <<"similar">> /\ UNCHANGED kind
DoSvd == kind = "svd" /\ ops = <<>> /\ \E n \in 1..MaxMatrix, w \in 2..MaxMatrix : \E m \in [1..n -> [1..w -> {0, 1, -2, 3}]] : \E k \in 1..n :
               Spread(m) /\ k < w /\ answer' = <<m, k>> /\ ops' = <<"svd">> /\ UNCHANGED <<dirs, files, kind>>
Next == DoDirs \/ DoWrite \/ DoSort \/ DoSimilar \/ DoSvd
Spec == Init /\ [][Next]_vars
Emit ==
  /\ (File /\ ops # <<>>) => Case([kind |-> kind, ops |-> ops, dirs |-> ListOf(dirs), files |-> ListOf({<<p, files[p]>> : p \in DOMAIN files})])
  /\ (kind = "similar" /\ ops # <<>>) => Case([kind |-> kind, m |-> answer[1], k |-> answer[3], rankings |-> ListOf(Rankings(answer[1], 1, answer[3])),
                                              sims |-> [i \in 1..Len(answer[1]) |-> Cosine(answer[1][1], answer[1][i])]])
  /\ (kind = "svd" /\ ops # <<>>) => Case([kind |-> kind, m |-> answer[1], k |-> answer[2], s |-> SingularValues(answer[1], answer[2]), p |-> LowRank(answer[1], answer[2])])
=============================================================================

------------------------------- MODULE Corpus -------------------------------
(* DoublespaceLineCorpus: one document per line, sentences separated by two  *)
(* spaces; iterators over one corpus object and its length.                  *)
EXTENDS Text
VARIABLES
  lines,    \* the lines of the file after the header
  opt,      \* [doc, sent, bysent]: limits as given (<= 0: none), iteration unit
  its       \* iterator -> [doc, sent, given]: current document (0: not started),
            \*   sentence within it, items given so far; doc = -1: exhausted
cvars == <<lines, opt, its>>

NL == 10
CR == 13
(* universal newlines: \r\n and \r end a line as \n does *)
RECURSIVE LinesFrom(_, _, _)
LinesFrom(s, i, b) ==
  IF i > Len(s) THEN IF b <= Len(s) THEN <<SubSeq(s, b, Len(s))>> ELSE <<>>
  ELSE IF s[i] = CR /\ i < Len(s) /\ s[i + 1] = NL
       THEN <<SubSeq(s, b, i - 1)>> \o LinesFrom(s, i + 2, i + 2)
  ELSE IF s[i] = NL \/ s[i] = CR THEN <<SubSeq(s, b, i - 1)>> \o LinesFrom(s, i + 1, i + 1)
  ELSE LinesFrom(s, i + 1, b)
FileLines(s) == LinesFrom(s, 1, 1)
Body(s, header) == LET ls == FileLines(s) IN SubSeq(ls, header + 1, Len(ls))

Strip(s) == LET w == {i \in 1..Len(s) : ~White(s[i])}
            IN IF w = {} THEN <<>>
               ELSE SubSeq(s, CHOOSE i \in w : \A j \in w : i <= j, CHOOSE i \in w : \A j \in w : j <= i)
RECURSIVE SplitTwo(_, _, _)
SplitTwo(s, i, b) ==
  IF i >= Len(s) THEN <<SubSeq(s, b, Len(s))>>
  ELSE IF s[i] = 32 /\ s[i + 1] = 32 THEN <<SubSeq(s, b, i - 1)>> \o SplitTwo(s, i + 2, i + 2)
  ELSE SplitTwo(s, i + 1, b)
Sentences(doc) == SelectSeq([i \in 1..Len(SplitTwo(doc, 1, 1)) |-> Strip(SplitTwo(doc, 1, 1)[i])],
                            LAMBDA x : x # <<>>)

-----------------------------------------------------------------------------
(* what the corpus consists of: documents within the limits, and sentences *)
SentsUpTo(n) == SumSeq([i \in 1..n |-> Len(Sentences(lines[i]))])
DocLimit == IF opt.doc > 0 THEN Min2(opt.doc, Len(lines)) ELSE Len(lines)
(* a sentence limit ends the corpus with the document that goes beyond it *)
Over == {k \in 1..DocLimit : opt.sent > 0 /\ SentsUpTo(k) > opt.sent}
NumDoc == IF Over = {} THEN DocLimit ELSE CHOOSE k \in Over : \A j \in Over : k <= j
NumSent == LET n == SentsUpTo(DocLimit) IN IF opt.sent > 0 THEN Min2(opt.sent, n) ELSE n
Items ==
  IF opt.bysent
  THEN SubSeq(Concat([i \in 1..DocLimit |-> Sentences(lines[i])]), 1, NumSent)
  ELSE [i \in 1..NumDoc |-> Strip(lines[i])]
Length == Len(Items)

-----------------------------------------------------------------------------
(* the calls, one item at a time as the generator produces them *)
OpenIt(k) == /\ its' = [x \in DOMAIN its \cup {k} |->
                          IF x = k THEN [doc |-> 0, sent |-> 0, given |-> 0] ELSE its[x]]
             /\ UNCHANGED <<lines, opt>>
AtEnd(it) == IF opt.bysent THEN it.doc > DocLimit \/ it.given >= NumSent ELSE it.given >= NumDoc
(* the position of the next item of a sentence iterator *)
RECURSIVE Advance(_, _)
Advance(d, s) ==
  IF d > DocLimit THEN <<d, 0>>
  ELSE IF d >= 1 /\ s < Len(Sentences(lines[d])) THEN <<d, s + 1>> ELSE Advance(d + 1, 0)
NextPos(it) == IF opt.bysent THEN Advance(it.doc, it.sent) ELSE <<it.doc + 1, 0>>
Ends(it) == it.doc = -1 \/ AtEnd(it) \/ NextPos(it)[1] > DocLimit
ItemAt(p) == IF opt.bysent THEN Sentences(lines[p[1]])[p[2]] ELSE Strip(lines[p[1]])
(* next(iterator): <<TRUE, item>>, or <<FALSE, <<>>>> at the end *)
Answer(k) == IF Ends(its[k]) THEN <<FALSE, <<>>>> ELSE <<TRUE, ItemAt(NextPos(its[k]))>>
Advanced(k) ==
  /\ its' = [its EXCEPT ![k] = IF Ends(@) THEN [@ EXCEPT !.doc = -1]
                               ELSE [doc |-> NextPos(@)[1], sent |-> NextPos(@)[2], given |-> @.given + 1]]
  /\ UNCHANGED <<lines, opt>>

(* the reported length is the number of items any iterator gives, and an
   iterator gives the items in order *)
LengthIsCount == \A k \in DOMAIN its : its[k].doc = -1 => its[k].given = Length
InOrder == \A k \in DOMAIN its :
             its[k].doc # -1 => (Ends(its[k]) <=> its[k].given = Length) /\
               (~Ends(its[k]) => ItemAt(NextPos(its[k])) = Items[its[k].given + 1])
=============================================================================

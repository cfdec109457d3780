------------------------------ MODULE Encoder ------------------------------
(* ConvolutionHangleEncoder: text is cleaned, encoded character by character *)
(* into index lists, and decoded again.                                      *)
EXTENDS Text, HangleChars
JungBegin == 19   JongBegin == 40   NumBegin == 68   Space == 78   Unknown == 79   Dim == 80
(* characters of indices 0..78; 79 is the unknown marker *)
Symbols == Initials \o Vowels \o Finals \o [i \in 1..10 |-> 47 + i] \o <<32>>
UnknownMarker == <<60, 117, 110, 107, 62>>           \* <unk>
SymbolText(i) == IF i = Unknown THEN UnknownMarker ELSE <<Symbols[i + 1]>>

(* every Hangul character, digit and blank is kept, anything else is a blank *)
Keep(c) == IsHangul(c) \/ IsDigit(c) \/ c = 32
Blanked(s) == [i \in 1..Len(s) |-> IF Keep(s[i]) THEN s[i] ELSE 32]
Clean(s) ==
  LET b == Blanked(s)
      words == SplitWhite(b)
  IN Concat([i \in 1..Len(words) |-> IF i = 1 THEN words[i] ELSE <<32>> \o words[i]])

(* a lone letter has the index of the initial consonant, vowel or final it is *)
LetterIndex(c) == (CHOOSE i \in 1..JongBegin + 28 : Symbols[i] = c /\ \A j \in 1..(i - 1) : Symbols[j] # c) - 1
Entry(c) ==
  IF c = 32 THEN <<Space>>
  ELSE IF IsDigit(c) THEN <<c - 48 + NumBegin>>
  ELSE IF IsSyllable(c)
       THEN <<IndexIn(Initials, Initial(c)) - 1, JungBegin + IndexIn(Vowels, Vowel(c)) - 1,
              JongBegin + IndexIn(Finals, Final(c)) - 1>>
  ELSE <<LetterIndex(c)>>
Encode(s) == LET c == Clean(s) IN [i \in 1..Len(c) |-> Entry(c[i])]

(* decoding: "" in bad means the entry is acceptable *)
Bad(e) ==
  IF Len(e) = 1 THEN ~(0 <= e[1] /\ e[1] < Dim)
  ELSE IF Len(e) = 3 THEN ~(/\ 0 <= e[1] /\ e[1] < JungBegin
                            /\ JungBegin <= e[2] /\ e[2] < JongBegin
                            /\ JongBegin <= e[3] /\ e[3] < NumBegin)
  ELSE FALSE
EntryText(e) ==
  IF Len(e) = 1 THEN SymbolText(e[1])
  ELSE IF Len(e) = 3
       THEN <<Syllable(Initials[e[1] + 1], Vowels[e[2] - JungBegin + 1], Finals[e[3] - JongBegin + 1])>>
  ELSE UnknownMarker
DecodeFails(es) == \E i \in 1..Len(es) : Bad(es[i])
Decode(es) == Concat([i \in 1..Len(es) |-> EntryText(es[i])])

-----------------------------------------------------------------------------
(* the machine: clean, encode one character at a time, decode one at a time  *)
VARIABLES rest, entries, left, decoded, stage
envars == <<rest, entries, left, decoded, stage>>
EnInit == rest = <<>> /\ entries = <<>> /\ left = <<>> /\ decoded = <<>> /\ stage = "idle"
EncodeCall(s) == stage = "idle" /\ rest' = Clean(s) /\ entries' = <<>> /\ left' = <<>> /\ decoded' = <<>>
                 /\ stage' = "encode"
EncodeChar == stage = "encode" /\ rest # <<>> /\ entries' = Append(entries, Entry(Head(rest)))
              /\ rest' = Tail(rest) /\ UNCHANGED <<left, decoded, stage>>
Encoded == stage = "encode" /\ rest = <<>> /\ stage' = "decode" /\ left' = entries
           /\ UNCHANGED <<rest, entries, decoded>>
DecodeEntry == stage = "decode" /\ left # <<>> /\ decoded' = decoded \o EntryText(Head(left))
               /\ left' = Tail(left) /\ UNCHANGED <<rest, entries, stage>>
Decoded == stage = "decode" /\ left = <<>> /\ stage' = "done" /\ UNCHANGED <<rest, entries, left, decoded>>
EnStep == EncodeChar \/ Encoded \/ DecodeEntry \/ Decoded
RoundTrip(s) == stage = "done" => decoded = Clean(s)
OnePerChar(s) == stage # "idle" => Len(entries) + Len(rest) = Len(Clean(s))
CleanIsIdempotent(s) == Clean(Clean(s)) = Clean(s)
NeverUnknown == \A i \in 1..Len(entries) : <<Unknown>> # entries[i] /\ ~Bad(entries[i])
IsEncode(s) == stage \in {"decode", "done"} => entries = Encode(s) /\ ~DecodeFails(entries)
IsDecode == stage = "done" => decoded = Decode(entries)
=============================================================================

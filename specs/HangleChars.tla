----------------------------- MODULE HangleChars -----------------------------
(* Hangul characters: classes, decomposition into letters, and composition.  *)
EXTENDS Text

SylFirst == 44032   SylLast == 55203
JaumFirst == 12593  JaumLast == 12622
MoumFirst == 12623  MoumLast == 12643
Blank == 32

(* initial consonants, vowels and finals in syllable order; the first final
   is "none", written as a blank *)
Initials == <<12593, 12594, 12596, 12599, 12600, 12601, 12609, 12610, 12611, 12613,
              12614, 12615, 12616, 12617, 12618, 12619, 12620, 12621, 12622>>
Vowels == [i \in 1..21 |-> 12622 + i]
Finals == <<32, 12593, 12594, 12595, 12596, 12597, 12598, 12599, 12601, 12602, 12603, 12604,
            12605, 12606, 12607, 12608, 12609, 12610, 12612, 12613, 12614, 12615, 12616,
            12618, 12619, 12620, 12621, 12622>>
InitialSet == SeqRange(Initials)
VowelSet == SeqRange(Vowels)
FinalSet == SeqRange(Finals)
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

IsSyllable(c) == SylFirst <= c /\ c <= SylLast
IsJaum(c) == JaumFirst <= c /\ c <= JaumLast
IsMoum(c) == MoumFirst <= c /\ c <= MoumLast
IsHangul(c) == IsSyllable(c) \/ IsJaum(c) \/ IsMoum(c)
IsDigit(c) == 48 <= c /\ c <= 57
IsLatin(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
IsPunct(c) == c \in {33, 34, 39, 44, 46, 63, 96}

Syllable(a, v, f) ==
  SylFirst + 588 * (IndexIn(Initials, a) - 1) + 28 * (IndexIn(Vowels, v) - 1) + (IndexIn(Finals, f) - 1)
Initial(c) == Initials[(c - SylFirst) \div 588 + 1]
Vowel(c) == Vowels[((c - SylFirst) % 588) \div 28 + 1]
Final(c) == Finals[((c - SylFirst) % 28) + 1]
(* <<>> for a character that is not Hangul *)
Letters(c) ==
  IF IsSyllable(c) THEN <<Initial(c), Vowel(c), Final(c)>>
  ELSE IF IsJaum(c) THEN <<c, Blank, Blank>>
  ELSE IF IsMoum(c) THEN <<Blank, c, Blank>>
  ELSE <<>>
WithoutFinal(c) == Syllable(Initial(c), Vowel(c), Blank)

=============================================================================

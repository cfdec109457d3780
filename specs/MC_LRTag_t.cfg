SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS Disjoint Covers AmongChoices Maximal Justified WordsKnown Emit

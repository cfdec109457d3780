SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS Disjoint Covers AmongChoices Maximal Justified WordsKnown Emit

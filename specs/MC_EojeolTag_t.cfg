SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS AllTile UnknownOnlyAlone Something WordsKnown Emit

SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS AllTile UnknownOnlyAlone Something WordsKnown Emit

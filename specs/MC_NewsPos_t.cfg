SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 3
  Often = {1, 2}
  Knows <- KnowsT
  Rounds = 2
INVARIANTS LeftExact RestUnknown NothingLost NounsParted LemmasKnown VerbsKnown NewStemsKnown Emit

SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 3
  Often = {1, 2}
  Knows <- KnowsQ
  Rounds = 2
INVARIANTS LeftExact RestUnknown NothingLost NounsParted LemmasKnown VerbsKnown NewStemsKnown Emit

SPECIFICATION Spec
CONSTANTS
  Chars = {97, 98, 32}
  MaxText = 4
  Words <- SomeWords
  Scores <- SomeScores
  MaxLens = {2, 3}
INVARIANTS InvLossless InvSegment Contiguous PicksDisjoint PicksOrdered BestIsKept Emit

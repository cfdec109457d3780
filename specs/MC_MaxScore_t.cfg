SPECIFICATION Spec
CONSTANTS
  Chars = {97, 98, 32}
  MaxText = 5
  Words <- SomeWords
  Scores <- SomeScores
  MaxLens = {2, 3, 10}
INVARIANTS InvLossless InvSegment Contiguous PicksDisjoint PicksOrdered BestIsKept Emit

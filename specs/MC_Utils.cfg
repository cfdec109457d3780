SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 3
  Pieces <- PiecesQ
  MaxPieces = 2
  MaxOps = 3
  Vectors <- VectorsQ
  MaxVectors = 4
  MaxMatrix = 3
INVARIANTS Closed Parents SortedTwice NothingLost SearchRanks Emit

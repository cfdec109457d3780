SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Depth = 3
  Pieces <- PiecesT
  MaxPieces = 3
  MaxOps = 3
  Vectors <- VectorsT
  MaxVectors = 4
  MaxMatrix = 3
INVARIANTS Closed Parents SortedTwice NothingLost SearchRanks Emit

SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 3
  Counts = {1, 3}
  ArgSet <- ArgsT
  KnownSet <- KnownT
INVARIANTS Restored ScoresWithin EndingsOccur EndingsBounded StemsOccur StemSurfaces EomiOrderFree StemOrderFree Emit

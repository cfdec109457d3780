SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 3
  Counts = {2}
  ArgSet <- ArgsQ
  KnownSet <- KnownQ
INVARIANTS Restored ScoresWithin EndingsOccur EndingsBounded StemsOccur StemSurfaces EomiOrderFree StemOrderFree Emit

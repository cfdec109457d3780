SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 3
  Counts = {1, 4}
  MinScores <- ScoresT
  Ends = {3}
INVARIANTS Thresholds FromSomewhere CompoundsSplit Resettable ScoreRange NoFeature Leftover OrderFree Emit

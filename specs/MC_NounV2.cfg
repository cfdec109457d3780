SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 3
  Counts = {1, 4}
  MinScores <- ScoresQ
  Ends = {3}
INVARIANTS Thresholds FromSomewhere CompoundsSplit Resettable ScoreRange NoFeature Leftover OrderFree Emit

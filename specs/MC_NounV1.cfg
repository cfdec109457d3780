SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 3
  Counts = {1, 3}
  MinScores <- ScoresQ
INVARIANTS SameKeys LongEnough Restored SharesBounded Repeatable OrderFree MeanWithin Emit

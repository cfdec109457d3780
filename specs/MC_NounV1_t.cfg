SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 3
  Counts = {1, 3}
  MinScores <- ScoresT
INVARIANTS SameKeys LongEnough Restored SharesBounded Repeatable OrderFree MeanWithin Emit

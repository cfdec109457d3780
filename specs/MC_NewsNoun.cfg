SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 4
  Counts = {1, 3}
  ScoreLimits <- LimitsQ
  Bases <- BasesQ
INVARIANTS AnswerIsDictionary PostScored FrequentOnly ExplainedHere NoPredicators ScoreWithin SameAtOnce Emit

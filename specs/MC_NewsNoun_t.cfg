SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 4
  Counts = {1, 3}
  ScoreLimits <- LimitsT
  Bases <- BasesQ
INVARIANTS AnswerIsDictionary PostScored FrequentOnly ExplainedHere NoPredicators ScoreWithin SameAtOnce Emit

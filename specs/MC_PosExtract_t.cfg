SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 4
  Counts = {1, 3}
  Large = {9, 10, 40}
  Lims <- LimsT
INVARIANTS NounsWellFounded PredicatorsWellFounded NoneTwice Frequencies Emit

SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 3
  Counts = {1, 3}
  Large = {9, 10, 40}
  Lims <- LimsQ
INVARIANTS NounsWellFounded PredicatorsWellFounded NoneTwice Frequencies Emit

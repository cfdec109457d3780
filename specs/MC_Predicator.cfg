SPECIFICATION Spec
CONSTANTS
  Pool <- PoolQ
  MaxWords = 3
  Counts = {1, 2}
  TrainArgs <- ArgsQ
  Confs <- ConfsQ
INVARIANTS Known NoNounJosa Parted Complete Repeatable Emit

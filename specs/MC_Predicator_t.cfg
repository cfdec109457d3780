SPECIFICATION Spec
CONSTANTS
  Pool <- PoolT
  MaxWords = 4
  Counts = {1, 3}
  TrainArgs <- ArgsT
  Confs <- ConfsT
INVARIANTS Known NoNounJosa Parted Complete Repeatable Emit

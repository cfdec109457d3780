SPECIFICATION Spec
CONSTANT MaxCount = 2
CONSTANT Cols = 3
INVARIANTS ScaleFree SymmetricMeasure MeanIsOne MoreSmoothingIsLess Emit

SPECIFICATION Spec
CONSTANT MaxCount = 4
CONSTANT Cols = 3
INVARIANTS ScaleFree SymmetricMeasure MeanIsOne MoreSmoothingIsLess Emit

SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT Second = 2
INVARIANTS ExactWithoutPruning NeverTooMany TwoPlaces UniCovers Emit

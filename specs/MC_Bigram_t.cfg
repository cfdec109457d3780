SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Second = 3
INVARIANTS ExactWithoutPruning NeverTooMany TwoPlaces UniCovers Emit

SPECIFICATION Spec
CONSTANT MaxText = 5
CONSTANT MaxSplit = 12
CONSTANT Repeats = {0, 1, 2, 3}
CONSTANT Group = "repeat"
INVARIANTS InvSqueezed InvKept InvIdempotentRepeat InvLetters InvRuns Emit

SPECIFICATION Spec
CONSTANT MaxText = 4
CONSTANT MaxSplit = 9
CONSTANT Repeats = {0, 2}
CONSTANT Group = "repeat"
INVARIANTS InvSqueezed InvKept InvIdempotentRepeat InvLetters InvRuns Emit

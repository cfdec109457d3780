SPECIFICATION Spec
CONSTANT MaxText = 4
CONSTANT MaxSplit = 9
CONSTANT Repeats = {1, 2}
CONSTANT Group = "filter"
INVARIANTS InvSqueezed InvKept InvIdempotent InvLetters InvRuns Emit

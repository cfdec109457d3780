SPECIFICATION Spec
CONSTANT MaxText = 5
INVARIANTS InvLossless NoEmptyToken MaximalRuns Pure Emit

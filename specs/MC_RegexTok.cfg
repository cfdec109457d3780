SPECIFICATION Spec
CONSTANT MaxText = 4
INVARIANTS InvLossless NoEmptyToken MaximalRuns Pure Emit

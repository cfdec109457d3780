SPECIFICATION Spec
CONSTANT MaxText = 7
INVARIANTS InvLossless Contiguous KnownPairs PicksDisjoint Emit

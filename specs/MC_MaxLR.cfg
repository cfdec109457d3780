SPECIFICATION Spec
CONSTANT MaxText = 5
INVARIANTS InvLossless Contiguous KnownPairs PicksDisjoint Emit

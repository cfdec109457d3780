SPECIFICATION Spec
CONSTANT MaxText = 3
INVARIANTS InvLossless LeftNonEmpty BestLeft Emit

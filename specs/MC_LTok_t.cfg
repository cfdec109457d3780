SPECIFICATION Spec
CONSTANT MaxText = 5
INVARIANTS InvLossless LeftNonEmpty BestLeft Emit

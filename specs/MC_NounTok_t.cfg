SPECIFICATION Spec
CONSTANT MaxText = 5
INVARIANTS InvPositions OnlyNouns Emit

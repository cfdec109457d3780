SPECIFICATION Spec
CONSTANT MaxText = 4
INVARIANTS InvPositions OnlyNouns Emit

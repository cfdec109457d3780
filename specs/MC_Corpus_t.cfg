SPECIFICATION Spec
CONSTANT MaxText = 6
INVARIANTS LengthIsCount InOrder Emit

SPECIFICATION Spec
CONSTANT MaxText = 5
INVARIANTS LengthIsCount InOrder Emit

SPECIFICATION Spec
CONSTANT MaxDocs = 3
CONSTANT MaxLen = 3
INVARIANTS InvInvert InvRound InvColumns InvSame Emit

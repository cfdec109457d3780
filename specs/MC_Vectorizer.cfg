SPECIFICATION Spec
CONSTANT MaxDocs = 2
CONSTANT MaxLen = 3
INVARIANTS InvInvert InvRound InvColumns InvSame Emit

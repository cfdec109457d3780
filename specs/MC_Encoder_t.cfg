SPECIFICATION Spec
CONSTANT MaxText = 4
CONSTANT Wide = TRUE
INVARIANTS InvRoundTrip InvFunctions Emit

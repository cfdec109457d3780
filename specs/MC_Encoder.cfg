SPECIFICATION Spec
CONSTANT MaxText = 3
CONSTANT Wide = FALSE
INVARIANTS InvRoundTrip InvFunctions Emit

SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Mirror Emit

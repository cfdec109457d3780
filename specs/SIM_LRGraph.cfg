SPECIFICATION Spec
CONSTANT Depth = 9
INVARIANTS Mirror Positive FrozenHasNoOrigin Emit

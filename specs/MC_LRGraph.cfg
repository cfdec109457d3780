SPECIFICATION Spec
CONSTANT Depth = 3
VIEW NoHist
INVARIANTS Mirror Positive FrozenHasNoOrigin
PROPERTIES ActiveFrozen Independent

SPECIFICATION Spec
CONSTANT Depth = 4
VIEW NoHist
INVARIANTS Mirror Positive FrozenHasNoOrigin
PROPERTIES ActiveFrozen Independent

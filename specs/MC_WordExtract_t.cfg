SPECIFICATION Spec
CONSTANT MaxWords = 2
CONSTANT MaxLen = 3
CONSTANT Rounds = 2
INVARIANTS Monotone WithinLengths NoRare ExtensionsWithin EntropyBounds IsDefinition Emit

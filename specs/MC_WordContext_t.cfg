SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT MaxSecond = 2
INVARIANTS Symmetric IsContexts IsFrequent Bounded Emit

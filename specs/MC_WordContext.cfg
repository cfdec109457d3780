SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT MaxSecond = 1
INVARIANTS Symmetric IsContexts IsFrequent Bounded Emit

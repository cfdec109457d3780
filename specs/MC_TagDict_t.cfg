SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Bounded Emit
PROPERTIES Steps

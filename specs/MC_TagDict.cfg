SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Bounded Emit
PROPERTIES Steps

SPECIFICATION Spec
CONSTANT Last = 65535
CONSTANT EmitStep = 16
INVARIANTS Lossless LettersInSlots ClassesDisjoint Emit

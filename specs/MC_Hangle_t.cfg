SPECIFICATION Spec
CONSTANT Last = 1114111
CONSTANT EmitStep = 16
INVARIANTS Lossless LettersInSlots ClassesDisjoint Emit

SPECIFICATION Spec
CONSTANTS
  Alphabet = {54616, 51312}
  MaxLen = 3
  MaxStems = 3
  Sufs <- SufsDefault
INVARIANTS Independent Sized Emit

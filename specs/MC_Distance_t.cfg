SPECIFICATION Spec
CONSTANT Len1 = 4
CONSTANT Len2 = 3
INVARIANTS NoCheaperScript InvMetric CauchySchwarz Emit

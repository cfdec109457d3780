SPECIFICATION Spec
CONSTANT Len1 = 3
CONSTANT Len2 = 2
INVARIANTS NoCheaperScript InvMetric CauchySchwarz Emit

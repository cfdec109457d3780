SPECIFICATION Spec
CONSTANTS
  StemInitials = {12593, 12601, 12615}
  StemVowels = {12623, 12624, 12627, 12629, 12631, 12636, 12641, 12643}
  StemFinals = {32, 12599, 12601, 12610, 12613, 12614, 12622}
  EndInitials = {12593, 12596, 12615}
  EndVowels = {12623, 12627, 12629, 12631, 12636, 12641, 12643}
  EndFinals = {32, 12596, 12614}
  Fronts <- FrontsQ
  Tails <- TailsQ
INVARIANTS WithinParts WellFormed AlwaysAForm HarmonyStable AgreesWithOne PlainFound Emit

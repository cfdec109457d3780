SPECIFICATION Spec
CONSTANTS
  LInitials = {12593, 12601, 12615, 12621, 12622}
  LVowels = {12623, 12624, 12627, 12628, 12629, 12631, 12632, 12636, 12637, 12641, 12643}
  LFinals = {32, 12599, 12596, 12601, 12609, 12610, 12613, 12614, 12615, 12622}
  RInitials = {12593, 12601, 12615}
  RVowels = {12623, 12627, 12632, 12637, 12641}
  RFinals = {32, 12614, 12596, 12622}
  Fronts <- FrontsT
  Tails <- TailsT
INVARIANTS Sound OnlyKnown Recovers ChatAddsOnly KnownWithinAll Emit

SPECIFICATION Spec
CONSTANTS
  Chars = {97, 98}
  MaxWord = 4
  MaxCount = 2
INVARIANTS Mirror Positive RoundTrip SplitCounts Emit

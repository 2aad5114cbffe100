SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2}
  MaxLen = 2
  MaxIn = 5
INVARIANTS RoundTrip NoPrefix Total
CHECK_DEADLOCK FALSE

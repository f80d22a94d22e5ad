SPECIFICATION Spec
CONSTANTS
  Alphabet = {":", " ", "a", "b"}
  MaxLen = 5
  MaxLines = 1
  Emit = TRUE
INVARIANTS InvRoundTrip InvFragile EmitInv
CHECK_DEADLOCK FALSE
